// Included before everything else: the C library's file functions are bound to hooks the harness defines.
#ifndef SX_FSSHIM_FILES_H_
#define SX_FSSHIM_FILES_H_
extern "C" {
struct _IO_FILE;
struct _IO_FILE *fopen(const char *__restrict, const char *__restrict) asm("sxf_fopen");
int fclose(struct _IO_FILE *) asm("sxf_fclose");
int fflush(struct _IO_FILE *) asm("sxf_fflush");
unsigned long fwrite(const void *__restrict, unsigned long, unsigned long, struct _IO_FILE *__restrict) asm("sxf_fwrite");
int ferror(struct _IO_FILE *) noexcept(true) asm("sxf_ferror");
int open(const char *, int, ...) asm("sxf_open");
int close(int) asm("sxf_close");
int rename(const char *, const char *) noexcept(true) asm("sxf_rename");
int remove(const char *) noexcept(true) asm("sxf_remove");
int unlink(const char *) noexcept(true) asm("sxf_unlink");
int access(const char *, int) noexcept(true) asm("sxf_access");
}
#endif

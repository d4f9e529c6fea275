#define SMASH_VERSION "SMASH-verif"
#define CMAKE_SYSTEM "Linux"
#define CMAKE_CXX_COMPILER_ID "GNU"
#define CMAKE_CXX_COMPILER_VERSION "13"
#define CMAKE_BUILD_TYPE "Release"
#define BUILD_DATE "0"
#define GIT_BRANCH "main"

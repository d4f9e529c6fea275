// Stand-in for smash::Configuration (the YAML layer is not what the harnesses check): values a harness
// sets by key, otherwise the default of the key. Include before anything that includes configuration.h.
#ifndef SX_CONFIG_H_
#define SX_CONFIG_H_
#ifdef SRC_INCLUDE_SMASH_CONFIGURATION_H_
#error "include sx_config.h first"
#endif
#define SRC_INCLUDE_SMASH_CONFIGURATION_H_
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include "smash/forwarddeclarations.h"
#include "smash/key.h"
namespace smash {
class Configuration {
 public:
  template <typename T> void set_value(const Key<T> &key, T value) { (*v_)[name(key)] = std::make_shared<T>(std::move(value)); }
  template <typename T> bool has_value(const Key<T> &key) const { return v_->count(name(key)); }
  template <typename T> T read(const Key<T> &key) const {
    auto it = v_->find(name(key));
    return it == v_->end() ? key.default_value() : *static_cast<T *>(it->second.get());
  }
  template <typename T> T read(const Key<T> &key, T def) const { return has_value(key) ? read(key) : def; }
  template <typename T> T take(const Key<T> &key) { T r = read(key); v_->erase(name(key)); return r; }
  template <typename T> T take(const Key<T> &key, T def) { T r = read(key, def); v_->erase(name(key)); return r; }
  bool has_section(const KeyLabels &l) const {
    const std::string p = smash::join(l, ": ") + ": ";
    for (auto &x : *v_) if (x.first.compare(0, p.size(), p) == 0) return true;
    return false;
  }
  Configuration extract_sub_configuration(KeyLabels, int = 0) { return *this; }
  Configuration extract_complete_sub_configuration(KeyLabels, int = 0) { return *this; }
  bool is_empty() const { return v_->empty(); }

 private:
  template <typename T> static std::string name(const Key<T> &key) { return smash::join(key.labels(), ": "); }
  std::shared_ptr<std::map<std::string, std::shared_ptr<void>>> v_ = std::make_shared<std::map<std::string, std::shared_ptr<void>>>();
};
}  // namespace smash
#endif

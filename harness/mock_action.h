// A concrete action whose final state the harness provides.
#ifndef MOCK_ACTION_H_
#define MOCK_ACTION_H_
#include "smash/action.h"
namespace smash {
struct MockAction : public Action {
  using Action::Action;
  double get_total_weight() const override { return 1.; }
  double get_partial_weight() const override { return 1.; }
  void generate_final_state() override {}
  void format_debug_output(std::ostream &) const override {}
};
}  // namespace smash
#endif

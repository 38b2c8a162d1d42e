// Out-of-line parts of <system_error>.
#include <stdexcept>
#include <string>
#include <system_error>
#include <cerrno>
namespace std {
inline namespace _V2 {
error_category::~error_category() = default;
__cow_string error_category::_M_message(int) const { __builtin_trap(); }
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return c.category() == *this && c.value() == i; }
namespace {
struct Generic : error_category {
  const char *name() const noexcept override { return "generic"; }
  string message(int) const override { return "an error"; }
};
struct System : error_category {
  const char *name() const noexcept override { return "system"; }
  string message(int) const override { return "an error"; }
  error_condition default_error_condition(int i) const noexcept override { return error_condition(i, generic_category()); }
};
struct Stream : error_category {
  const char *name() const noexcept override { return "iostream"; }
  string message(int) const override { return "iostream error"; }
};
Generic the_generic;
System the_system;
} // namespace
const error_category &generic_category() noexcept { return the_generic; }
const error_category &system_category() noexcept { return the_system; }
} // namespace _V2
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
system_error::~system_error() noexcept = default;
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
} // namespace std

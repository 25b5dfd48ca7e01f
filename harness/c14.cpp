#include "core.hpp"
namespace vh
{
extern const bool csv_suite;
const bool csv_suite       = true;
const char* suite_property = "C14";
const char* suite_rule = "random histories (as in C13) are exported at random moments, before and after shrinking, to a scratch file which is parsed back: one header, every tracked signal's columns exactly once with components in order, as many rows as recorded and in order, every field equal to the recorded number of the column it stands under to the printed precision; non-trivial: at least one recorded row and one tracked signal";
} // namespace vh

#include "core.hpp"
namespace vh
{
extern const bool csv_suite;
const bool csv_suite       = false;
const char* suite_property = "C13";
const char* suite_rule = "random sequences of track, untrack, signal assignments, update (appending, overwriting earlier rows, filling rows out of order, after shrinking), shrink_to_fit and reads on a History with growth increments 1..1000 and 1-8 signals of all types, compared cell by cell with a table kept by the harness; non-trivial: at least one recorded row and one tracked signal";
} // namespace vh

#define main concat_tool_main
#include <tools/concat.cc>

// statics/common.h
#include "../wl.h"
#include <array>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void id_record(long long); void val_record(long double); void uses_begin(int tu); void uses_end();

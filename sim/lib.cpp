// The one translation unit with the non-template code of the library.
#define UNCERTAINTIES_EXTERN_UDOUBLE
#define UNCERTAINTIES_EXTERN_UDOUBLE2
#include <uncertainties/impl.hpp>
#include <uncertainties/io.hpp>

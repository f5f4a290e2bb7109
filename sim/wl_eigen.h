// wl_eigen.h -- lets Eigen use SimReal
#ifndef SIM_WL_EIGEN_H
#define SIM_WL_EIGEN_H
#include <Eigen/Core>
#include "wl.h"
namespace simreal {
inline const SimReal &conj(const SimReal &x) { return x; }
inline const SimReal &real(const SimReal &x) { return x; }
inline SimReal imag(const SimReal &) { return SimReal(0); }
inline SimReal abs2(const SimReal &x) { return x * x; }
}
namespace Eigen {
template<> struct NumTraits<SimReal>: NumTraits<double> {
    typedef SimReal Real; typedef SimReal NonInteger; typedef SimReal Nested; typedef SimReal Literal;
    enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 4, AddCost = 8, MulCost = 8 };
    static SimReal epsilon() { return std::numeric_limits<double>::epsilon(); }
    static SimReal dummy_precision() { return SimReal(1e-12); }
    static SimReal highest() { return std::numeric_limits<double>::max(); }
    static SimReal lowest() { return std::numeric_limits<double>::lowest(); }
    static int digits10() { return 15; }
};
}
#endif

// Force-included before everything else: turns Eigen's internal assertions into C++ exceptions, so that an
// out-of-range index or size mismatch inside the code under test becomes a deterministic, replayable violation.
#pragma once
#include <stdexcept>
#include <string>
namespace mc
{
struct EigenAssertion : public std::logic_error
{
    explicit EigenAssertion(const char* s) : std::logic_error(std::string("Eigen assertion failed: ") + s) {}
};
}
#ifndef MC_NO_EIGEN_ASSERT
#define eigen_assert(x)                   \
    do                                    \
    {                                     \
        if (!(x))                         \
            throw mc::EigenAssertion(#x); \
    } while (false)
#endif
#define EIGEN_INITIALIZE_MATRICES_BY_NAN

// Stand-in for blaze/util/Memory.h, which is not installed here: allocate<T>(n) returns storage
// for n elements (class types default-constructed, built-in types uninitialised and aligned for
// vector instructions), deallocate releases it (null is allowed).  Built-in elements are filled
// with 0xFF bytes (NaN for floating point), so that reading an element which was never written
// is visible in the results.
#pragma once

#include <boost/serialization/access.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/array_wrapper.hpp>
#include <cstddef>
#include <cstring>
#include <new>
#include <type_traits>

namespace blaze {

template <typename T>
T* allocate(std::size_t size)
{
    if constexpr (std::is_floating_point<T>::value || std::is_integral<T>::value) {       // aligned for AVX
        void* p = ::operator new[](size * sizeof(T), std::align_val_t(32));
        std::memset(p, 0xFF, size * sizeof(T));
        return static_cast<T*>(p);
    } else {
        return new T[size];
    }
}

template <typename T>
void deallocate(T* address) noexcept
{
    if constexpr (std::is_floating_point<T>::value || std::is_integral<T>::value) ::operator delete[](address, std::align_val_t(32));
    else delete [] address;
}

} // namespace blaze

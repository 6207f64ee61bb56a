// Shadows magic/typelist.h to build the library for a few element types only (compile time; see DESIGN.md)
#ifndef VERIF_SMALL_TYPELIST_H
#define VERIF_SMALL_TYPELIST_H

#include_next "magic/typelist.h"

namespace types
{
template<typename T> class BasicType;
template<typename T> class ArrayType;
template<typename T> class StructType;
}

namespace verif
{

template<typename T> struct Keep { enum { value = 0 }; };
#define VERIF_KEEP(T) template<> struct Keep<types::T > { enum { value = 1 }; };
VERIF_KEEP(BasicType<float>)
VERIF_KEEP(BasicType<int>)
VERIF_KEEP(BasicType<double>)
VERIF_KEEP(ArrayType<int>)
VERIF_KEEP(StructType<int>)
VERIF_KEEP(BasicType<unsigned char>)
VERIF_KEEP(BasicType<long>)

template<bool keep, typename H, typename R> struct Cons { typedef magic::Typelist<H, R> result; };
template<typename H, typename R> struct Cons<false, H, R> { typedef R result; };

template<typename L> struct Filter;
template<typename H, typename T> struct Filter<magic::Typelist<H, T> >
{
	typedef typename Cons<Keep<H>::value, H, typename Filter<T>::result>::result result;
};
template<> struct Filter<magic::NullType> { typedef magic::NullType result; };

}

namespace magic
{
template<typename... T> struct VerifMakeTypelist
{
	typedef typename verif::Filter<typename MakeTypelist<T...>::result>::result result;
};
}
#define MakeTypelist VerifMakeTypelist

#endif

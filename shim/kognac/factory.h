// Stand-in for kognac/factory.h (not part of this repository): object and array pools.
#pragma once
#include <stddef.h>
#ifdef VP_CONTRACTS
extern "C" { void* vp_array_get(void*); void vp_array_release(void*, void*); void* vp_obj_get(void*); void vp_obj_release(void*, void*); }
template <class T> class PreallocatedArraysFactory { public: PreallocatedArraysFactory(int size, int = 0, int = 0) : size(size) {} T* get() { return (T*)vp_array_get(this); } void release(T* p) { vp_array_release(this, p); } int size; };
template <class T> class PreallocatedFactory { public: PreallocatedFactory(int = 0, int = 0) {} T* get() { return (T*)vp_obj_get(this); } void release(T* p) { vp_obj_release(this, p); } int size; };
template <class T> class Factory : public PreallocatedFactory<T> {};
#else
template <class T> class PreallocatedArraysFactory { public: PreallocatedArraysFactory(int size, int = 0, int = 0) : size(size) {} T* get() { return new T[size]; } void release(T* p) { delete[] p; } int size; };
template <class T> class PreallocatedFactory { public: PreallocatedFactory(int = 0, int = 0) {} T* get() { return new T(); } void release(T* p) { delete p; } };
template <class T> class Factory : public PreallocatedFactory<T> {};
#endif

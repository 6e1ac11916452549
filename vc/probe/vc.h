#ifndef VC_H
#define VC_H
// Language of the contracts written in C++: a contract is a function that assumes the precondition of the
// function under contract (vc_assume), calls the real function once, and demands its postcondition (vc_ensure).
// Reference parameters are objects with arbitrary contents; the verifier runs it for all values at once.
#include <cstddef>
#include <cstdint>
#include <string>
#define OBS extern "C" __attribute__((used))
extern "C" {
bool     vc_any_bool();
uint8_t  vc_any_u8();
uint16_t vc_any_u16();
uint32_t vc_any_u32();
uint64_t vc_any_u64();
void     vc_any_string(std::string *out);
void    *vc_any_bytes(size_t n);      // a fresh object of n octets with arbitrary contents
void    *vc_any_array(size_t n, size_t size); // n elements of that size
// n vectors of pointers, one after the other: vector i holds the elements vc_first(i) .. vc_first(i + 1) - 1 of vc_elements()
void    *vc_groups(size_t n);
size_t   vc_first(size_t i);
const void **vc_elements();
size_t   vc_group(size_t j);          // the vector that element j lies in
bool     vc_pred(const void *p);      // some property of a pointer
// n pointers to n objects of that size: the i-th points to vc_object(i); vc_index(p): which one p points to
void    *vc_objects(size_t n, size_t size);
void    *vc_objects_like(size_t n, const void *proto, size_t size); // copies of that object
void    *vc_object(size_t i);
void    *vc_any_pointer();            // a pointer of which nothing is known
size_t   vc_index(const void *p);
bool     vc_alive(const void *p);     // not given back to the heap
// '@invariant' before a function OBS bool f(uint64_t...): a loop invariant tried for the values a loop changes
size_t   vc_room(const void *p);      // octets from p to the end of the object it points into
// calls the function object that was handed to a replaced function as its last pointer argument
void     vc_invoke(const void *f);
void     vc_invoke_p(const void *f, const void *a);
void     vc_invoke_pn(const void *f, const void *a, size_t n);
void     vc_invoke_pp(const void *f, const void *a, const void *b);
void     vc_assume(bool c);
void     vc_within(bool c);           // the contract speaks about code that does this; otherwise it says nothing
void     vc_ensure(bool c, const char *what);
void     vc_note(const char *what);   // appends to the ghost event list
}
#endif

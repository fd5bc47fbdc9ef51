// Instances for the typestate pass (engine/ts.cpp): every library function that handles multiple-precision objects.
#include <vector>
#include <random>
#include <cmath>
#include <cstring>
#include <mpfr.h>
#include "thls/tops/fp_flopoco.hpp"
#include "thls/tops/fp_ieee.hpp"
#include "thls/tops/fp_convert.hpp"
#include "thls/tops/policy_flopoco.hpp"
#include "thls/tops/policy_ieee_on_flopoco.hpp"
#include "thls/tops/policy_native.hpp"
#include "thls/tops/make_input.hpp"
#include "thls/tops/bit_heap.hpp"
#include "thls/tops/row_heap.hpp"
using namespace thls;
template struct thls::fw_uint<7>;
template struct thls::fp_flopoco<8, 23>;
template struct thls::fp_ieee<8, 23>;
template struct thls::fw_uint<40>;
typedef fp_flopoco<5, 4> A; typedef fp_flopoco<4, 6> B; typedef fp_flopoco<5, 3> R; typedef fp_ieee<5, 4> IA; typedef fp_ieee<4, 6> IB; typedef fp_ieee<5, 3> IR;
void t1(A a, B b, A c, R &r, R &s, IA x, IB y, IR &q, fw_uint<100> w, mpz_t z)
{
    r = ref_mul<5, 3>(a, b); ref_mul(r, a, b); r = ref_add<5, 3>(a, b); ref_add(r, a, b); r = ref_div<5, 3>(a, b); ref_div(r, a, b);
    r = ref_pow<5, 3>(a, b); ref_pow(r, a, b); r = ref_neg<5, 3>(a); r = ref_inv<5, 3>(a); ref_inv(r, a); ref_inv_faithful(r, s, a);
    r = ref_convert<5, 3>(a); r = ref_ldexp_const<5, 3, 3>(a); ref_ldexp_const<5, 3, 3>(r, a); thls::ref_convert(r, a); r = ref_square<5, 3>(a); ref_square(r, a);
    r = ref_log<5, 3>(a); r = ref_exp<5, 3>(a); r = ref_sqrt<5, 3>(a); r = ref_fma<5, 3>(a, b, c); ref_fma(r, a, b, c);
    q = ref_add<5, 3>(x, y); ref_add(q, x, y); q = ref_mul<5, 3>(x, y); ref_mul(q, x, y);
    w.to_mpz_t(z); fw_uint<100> v(z);
}
template struct thls::policy_flopoco<5, 4>;
__attribute__((used)) void (*const keep[])() = {(void (*)())policy_concept::from_mpfr, (void (*)())policy_concept::to_mpfr, (void (*)())policy_concept::ref_add, (void (*)())policy_concept::ref_mul, (void (*)())policy_concept::ref_div,
    (void (*)())policy_native_single::from_mpfr, (void (*)())policy_native_double::from_mpfr};
template struct thls::policy_ieee_on_flopoco<5, 4>;
void t2()
{
    test_policy<policy_native_double>::test_arithmetic(3);
    test_policy<policy_native_single>::test_arithmetic(3);
    test_policy<policy_flopoco<8, 23>>::test_arithmetic(3);

    std::vector<fp_flopoco<8, 23>> v; make_input(v, 100);
    std::vector<fp_ieee<8, 23>> w; make_input(w, 100);
}
void t3(bit_heap_link<3, bit_heap_link<2, bit_heap_root<1>>> &h, row_heap_holder<5, 3> &r, mpz_t z)
{
    std::stringstream acc; acc << h; bit_heap_to_mpz(z, h); row_heap_to_mpz(z, r);
}

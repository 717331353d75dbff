//@ level: exploration
//@ technique: exhaustive enumeration of all values of each enumeration and of all texts up to a length and all edits of the enumerator names, through the real nameof and as_enum
//@ note: Values are covered completely for each kind of enumeration; texts completely up to three characters over the letters in use, plus every one-edit neighbour, prefix, extension and scoped form of every name. The kinds of enumeration are representative. Enumerators sharing one value and types in anonymous namespaces are outside the property.
//@ cxx: -O0
//@ rule: a value that is an enumerator, or a text that differs from an enumerator name by one edit
//@ bounds: 16 enumerations (underlying types of 8, 16, 32, 64 bits and bool, signed and unsigned; scoped, unscoped; global, in a class, in nested namespaces; sparse, dense with 256 enumerators); values 0..255 and 27 outside, up to the ends of 64 bits; identifiers of up to 264 characters; enumerators with names of every length 1..70
//@ assume: the expected names are the stringized enumerator list
#include "mc.h"
#include "ce/ce.h"
#include "ce/nameof.h"
#include <string>
#include <vector>
#include <cstring>
#include <type_traits>
using namespace mc;
using std::string;

#define N1(X) X
enum class small : unsigned char { a, b, c, ab, abc, A };
enum unscoped : unsigned short { un_zero, un_one, un_two = 200, un_last = 255 };
enum plain { pl_a = 0, pl_b = 1, pl_c = 64, pl_d = 63, pl_e = 65, pl_f = 128, pl_g = 127, pl_h = 129, pl_i = 192, pl_z = 255 };
enum class sc : signed char { zero, low = 1, high = 127, mid = 64 };
enum class sh : short { s0 = 31, s1 = 32, s2 = 33, s255 = 255 };
enum class ll : long long { first = 0, second = 15, third = 16, thousand = 1000 };
enum class ull : unsigned long long { x1 = 1, x17 = 17, x95 = 95, x96 = 96, x_ = 97, _x = 98, __x = 100 };
enum class flag : bool { no, yes };
enum class empty_ : int { };
enum class single : int { only = 159 };
namespace ns { enum class in_ns { red, green, blue = 20, re = 21, redd = 22, d = 23 }; enum un_ns : int { ns_a = 3, ns_b = 250 };
    namespace deep { struct holder { enum class nested : unsigned { deep_a, deep_b = 77, nested = 78, holder = 79 }; enum plain_nested : unsigned char { pn_a = 9, pn_b }; template<int> struct t { }; }; } }
struct outer { enum class color { red, green, blue, outer, color }; struct inner { enum level { lo_level = 2, hi_level = 254 }; }; };

#define LONG_NAME a_name_of_an_enumerator_which_is_so_long_that_no_small_table_of_sixty_four_or_one_hundred_and_twenty_eight_or_two_hundred_and_fifty_six_characters_would_hold_it_and_still_not_at_its_end_because_it_goes_on_and_on_until_it_is_long_enough_to_be_sure_that_it_is_so_long
#define CAT_(A, B) A##B
#define CAT(A, B) CAT_(A, B)
enum class long_ids : int { LONG_NAME = 3, CAT(LONG_NAME, _) = 4, CAT(LONG_NAME, 1) = 200, CAT(LONG_NAME, 2) = 201, CAT(x, LONG_NAME) = 255, x31_345678901234567890123456789_ = 60, x32_3456789012345678901234567890 = 61, x63_34567890123456789012345678901234567890123456789012345678901 = 62, x64_345678901234567890123456789012345678901234567890123456789012 = 63, x65_3456789012345678901234567890123456789012345678901234567890123 = 64 };
struct LONG_NAME { }; namespace LONG_NAME_ns { enum class LONG_NAME_in { CAT(LONG_NAME, _deep) = 7 }; }

#define D16(P) P##0, P##1, P##2, P##3, P##4, P##5, P##6, P##7, P##8, P##9, P##a, P##b, P##c, P##d, P##e, P##f
#define D256(P) D16(P##0), D16(P##1), D16(P##2), D16(P##3), D16(P##4), D16(P##5), D16(P##6), D16(P##7), D16(P##8), D16(P##9), D16(P##a), D16(P##b), D16(P##c), D16(P##d), D16(P##e), D16(P##f)
enum class dense : int { D256(v_) };

// every name length: each name is a prefix of the next
enum class lens : int { q = 1, q0 = 2, q0w = 3, q0w1 = 4, q0w1e = 5, q0w1e2 = 6, q0w1e2r = 7, q0w1e2r3 = 8, q0w1e2r3t = 9, q0w1e2r3t4 = 10, q0w1e2r3t4y = 11, q0w1e2r3t4y5 = 12, q0w1e2r3t4y5u = 13, q0w1e2r3t4y5u6 = 14, q0w1e2r3t4y5u6i = 15, q0w1e2r3t4y5u6i7 = 16, q0w1e2r3t4y5u6i7o = 17, q0w1e2r3t4y5u6i7o8 = 18, q0w1e2r3t4y5u6i7o8p = 19, q0w1e2r3t4y5u6i7o8p9 = 20, q0w1e2r3t4y5u6i7o8p9a = 21, q0w1e2r3t4y5u6i7o8p9a_ = 22, q0w1e2r3t4y5u6i7o8p9a_s = 23, q0w1e2r3t4y5u6i7o8p9a_s_ = 24, q0w1e2r3t4y5u6i7o8p9a_s_d = 25, q0w1e2r3t4y5u6i7o8p9a_s_d_ = 26, q0w1e2r3t4y5u6i7o8p9a_s_d_f = 27, q0w1e2r3t4y5u6i7o8p9a_s_d_f_ = 28, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g = 29, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_ = 30, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h = 31, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_ = 32, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j = 33, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_ = 34, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k = 35, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_ = 36, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l = 37, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_ = 38, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z = 39, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_ = 40, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x = 41, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_ = 42, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c = 43, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_ = 44, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v = 45, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_ = 46, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b = 47, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_ = 48, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n = 49, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_ = 50, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m = 51, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_ = 52, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q = 53, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0 = 54, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W = 55, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1 = 56, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E = 57, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2 = 58, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R = 59, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3 = 60, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T = 61, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4 = 62, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y = 63, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5 = 64, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U = 65, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6 = 66, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I = 67, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I7 = 68, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I7O = 69, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I7O8 = 70 };
enum class snel : unsigned { q = 199, q0 = 198, q0w = 197, q0w1 = 196, q0w1e = 195, q0w1e2 = 194, q0w1e2r = 193, q0w1e2r3 = 192, q0w1e2r3t = 191, q0w1e2r3t4 = 190, q0w1e2r3t4y = 189, q0w1e2r3t4y5 = 188, q0w1e2r3t4y5u = 187, q0w1e2r3t4y5u6 = 186, q0w1e2r3t4y5u6i = 185, q0w1e2r3t4y5u6i7 = 184, q0w1e2r3t4y5u6i7o = 183, q0w1e2r3t4y5u6i7o8 = 182, q0w1e2r3t4y5u6i7o8p = 181, q0w1e2r3t4y5u6i7o8p9 = 180, q0w1e2r3t4y5u6i7o8p9a = 179, q0w1e2r3t4y5u6i7o8p9a_ = 178, q0w1e2r3t4y5u6i7o8p9a_s = 177, q0w1e2r3t4y5u6i7o8p9a_s_ = 176, q0w1e2r3t4y5u6i7o8p9a_s_d = 175, q0w1e2r3t4y5u6i7o8p9a_s_d_ = 174, q0w1e2r3t4y5u6i7o8p9a_s_d_f = 173, q0w1e2r3t4y5u6i7o8p9a_s_d_f_ = 172, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g = 171, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_ = 170, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h = 169, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_ = 168, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j = 167, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_ = 166, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k = 165, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_ = 164, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l = 163, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_ = 162, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z = 161, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_ = 160, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x = 159, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_ = 158, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c = 157, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_ = 156, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v = 155, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_ = 154, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b = 153, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_ = 152, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n = 151, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_ = 150, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m = 149, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_ = 148, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q = 147, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0 = 146, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W = 145, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1 = 144, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E = 143, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2 = 142, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R = 141, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3 = 140, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T = 139, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4 = 138, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y = 137, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5 = 136, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U = 135, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6 = 134, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I = 133, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I7 = 132, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I7O = 131, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I7O8 = 130 };

struct entry { string name; long long value; };
template<class E> struct def;
#define ENTRY(E, N) { #N, (long long)(E::N) }
#define DEF(E, ...) template<> struct def<E> { static constexpr auto text = #E; static std::vector<entry> list() { using T = E; return { __VA_ARGS__ }; } };
#define ENTRY_X(E, N) ENTRY(E, N)
template<> struct def<long_ids> { static std::vector<entry> list() { using T = long_ids; return { ENTRY_X(T, LONG_NAME), ENTRY_X(T, CAT(LONG_NAME, _)), ENTRY_X(T, CAT(LONG_NAME, 1)), ENTRY_X(T, CAT(LONG_NAME, 2)), ENTRY_X(T, CAT(x, LONG_NAME)), ENTRY(T, x31_345678901234567890123456789_), ENTRY(T, x32_3456789012345678901234567890), ENTRY(T, x63_34567890123456789012345678901234567890123456789012345678901), ENTRY(T, x64_345678901234567890123456789012345678901234567890123456789012), ENTRY(T, x65_3456789012345678901234567890123456789012345678901234567890123) }; } };
template<> struct def<LONG_NAME_ns::LONG_NAME_in> { static std::vector<entry> list() { using T = LONG_NAME_ns::LONG_NAME_in; return { ENTRY_X(T, CAT(LONG_NAME, _deep)) }; } };
DEF(small, ENTRY(T, a), ENTRY(T, b), ENTRY(T, c), ENTRY(T, ab), ENTRY(T, abc), ENTRY(T, A))
DEF(lens, ENTRY(T, q), ENTRY(T, q0), ENTRY(T, q0w), ENTRY(T, q0w1), ENTRY(T, q0w1e), ENTRY(T, q0w1e2), ENTRY(T, q0w1e2r), ENTRY(T, q0w1e2r3), ENTRY(T, q0w1e2r3t), ENTRY(T, q0w1e2r3t4), ENTRY(T, q0w1e2r3t4y), ENTRY(T, q0w1e2r3t4y5), ENTRY(T, q0w1e2r3t4y5u), ENTRY(T, q0w1e2r3t4y5u6), ENTRY(T, q0w1e2r3t4y5u6i), ENTRY(T, q0w1e2r3t4y5u6i7), ENTRY(T, q0w1e2r3t4y5u6i7o), ENTRY(T, q0w1e2r3t4y5u6i7o8), ENTRY(T, q0w1e2r3t4y5u6i7o8p), ENTRY(T, q0w1e2r3t4y5u6i7o8p9), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I7), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I7O), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I7O8))
DEF(snel, ENTRY(T, q), ENTRY(T, q0), ENTRY(T, q0w), ENTRY(T, q0w1), ENTRY(T, q0w1e), ENTRY(T, q0w1e2), ENTRY(T, q0w1e2r), ENTRY(T, q0w1e2r3), ENTRY(T, q0w1e2r3t), ENTRY(T, q0w1e2r3t4), ENTRY(T, q0w1e2r3t4y), ENTRY(T, q0w1e2r3t4y5), ENTRY(T, q0w1e2r3t4y5u), ENTRY(T, q0w1e2r3t4y5u6), ENTRY(T, q0w1e2r3t4y5u6i), ENTRY(T, q0w1e2r3t4y5u6i7), ENTRY(T, q0w1e2r3t4y5u6i7o), ENTRY(T, q0w1e2r3t4y5u6i7o8), ENTRY(T, q0w1e2r3t4y5u6i7o8p), ENTRY(T, q0w1e2r3t4y5u6i7o8p9), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I7), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I7O), ENTRY(T, q0w1e2r3t4y5u6i7o8p9a_s_d_f_g_h_j_k_l_z_x_c_v_b_n_m_Q0W1E2R3T4Y5U6I7O8))
DEF(unscoped, ENTRY(T, un_zero), ENTRY(T, un_one), ENTRY(T, un_two), ENTRY(T, un_last))
DEF(plain, ENTRY(T, pl_a), ENTRY(T, pl_b), ENTRY(T, pl_c), ENTRY(T, pl_d), ENTRY(T, pl_e), ENTRY(T, pl_f), ENTRY(T, pl_g), ENTRY(T, pl_h), ENTRY(T, pl_i), ENTRY(T, pl_z))
DEF(sc, ENTRY(T, zero), ENTRY(T, low), ENTRY(T, high), ENTRY(T, mid))
DEF(sh, ENTRY(T, s0), ENTRY(T, s1), ENTRY(T, s2), ENTRY(T, s255))
DEF(ll, ENTRY(T, first), ENTRY(T, second), ENTRY(T, third))
DEF(ull, ENTRY(T, x1), ENTRY(T, x17), ENTRY(T, x95), ENTRY(T, x96), ENTRY(T, x_), ENTRY(T, _x), ENTRY(T, __x))
DEF(flag, ENTRY(T, no), ENTRY(T, yes))
template<> struct def<empty_> { static std::vector<entry> list() { return {}; } };
DEF(single, ENTRY(T, only))
DEF(ns::in_ns, ENTRY(T, red), ENTRY(T, green), ENTRY(T, blue), ENTRY(T, re), ENTRY(T, redd), ENTRY(T, d))
DEF(ns::un_ns, ENTRY(T, ns_a), ENTRY(T, ns_b))
DEF(ns::deep::holder::nested, ENTRY(T, deep_a), ENTRY(T, deep_b), ENTRY(T, nested), ENTRY(T, holder))
DEF(ns::deep::holder::plain_nested, ENTRY(T, pn_a), ENTRY(T, pn_b))
DEF(outer::color, ENTRY(T, red), ENTRY(T, green), ENTRY(T, blue), ENTRY(T, outer), ENTRY(T, color))
DEF(outer::inner::level, ENTRY(T, lo_level), ENTRY(T, hi_level))
template<> struct def<dense> { static std::vector<entry> list() { std::vector<entry> r; for (int i = 0; i < 256; ++i) { char b[8]; snprintf(b, sizeof b, "v_%02x", i); r.push_back({ b, i }); } return r; } };

template<class E> static void values()
{
    auto list = def<E>::list();
    static const long long outside[] = { 256, 257, 300, 511, 512, 65536, 65537, 1 << 24, -1, -56, -255, -256, 1ll << 31, (1ll << 31) + 1, -(1ll << 31), 4294967296ll, 4294967297ll, 4294967311ll, -4294967296ll, -4294967295ll, 1ll << 40, (1ll << 48) + 1, (1ll << 56) + 16, 1ll << 62, (long long)(~0ull >> 1), -(long long)(~0ull >> 1) - 1, -(long long)(~0ull >> 1) };
    using U = std::underlying_type_t<E>;
    for (int i = 0; i < 256 + int(sizeof outside / sizeof *outside); ++i)
    {
        long long v = i < 256 ? i : outside[i - 256];
        if ((long long)(U)v != v) continue;
        if (std::is_same_v<U, bool> && v > 1) continue;
        if (std::is_same_v<E, plain> && (v > 255 || v < 0)) continue; // no such value
        string want = "???"; for (auto& e : list) if (e.value == v && v >= 0 && v < 256) want = e.name;
        char const* g = ce::nameof(E(v)); step(); if (want != "???") nontrivial();
        MC_CHECK(g && want == g, "nameof of value %lld is <%s> expected <%s>", v, g ? g : "(null)", want.c_str());
        if (want != "???")
        {
            E back = ce::as_enum<E>(g, E(0)), back2 = ce::as_enum<E>(g, E(1)); step(2);
            MC_CHECK((long long)back == v && (long long)back2 == v, "as_enum of <%s> is %lld expected %lld", g, (long long)back, v);
            hasher h; h.s(g); outcome(h);
            if (want_sample()) sample("%s <-> %lld", g, v);
        }
    }
}
template<class E> static void text(std::vector<entry> const& list, string const& t)
{
    long long want = -1; for (auto& e : list) if (e.name == t) want = e.value;
    // the text in memory of exactly its size
    char* p = (char*)malloc(t.size() + 1); memcpy(p, t.c_str(), t.size() + 1); step();
    for (int f : { 0, 1 })
    {
        E r = ce::as_enum<E>(p, E(f));
        MC_CHECK((long long)r == (want < 0 ? f : want), "as_enum of <%s> with fallback %d is %lld expected %lld", t.c_str(), f, (long long)r, want < 0 ? f : want);
    }
    MC_CHECK(want >= 0 || ce::as_enum<E>(p) == E{}, "as_enum of <%s> without a fallback", t.c_str());
    free(p);
}
template<class E> static void texts()
{
    auto list = def<E>::list();
    std::vector<string> all{ "", "?", "??", "???", "????", "(", "0", "1", "::", ":" };
    string alpha = "aAbz0_:( )?";
    std::vector<string> names; for (auto& e : list) { if (names.size() < 12 || std::is_same_v<E, lens> || std::is_same_v<E, snel> || e.value % 51 == 0) names.push_back(e.name); }
    for (auto& n : names)
    {
        nontrivial();
        for (size_t i = 0; i <= n.size(); ++i) { all.push_back(n.substr(0, i)); all.push_back(n.substr(i)); }
        string cs; for (char c : alpha + n) if (cs.find(c) == string::npos) cs += c;
        for (char c : cs)
            for (size_t i = 0; i <= n.size(); ++i) { string t = n; t.insert(i, 1, c); all.push_back(t); if (i < n.size()) { t = n; t[i] = c; all.push_back(t); } }
        for (size_t i = 0; i < n.size(); ++i) { string t = n; t.erase(i, 1); all.push_back(t); t = n; t[i] ^= 0x20; all.push_back(t); t = n; t[i] = char(t[i] + 1); all.push_back(t); t = n; t[i] |= char(0x80); all.push_back(t); }
        all.push_back("::" + n); all.push_back("color::" + n); all.push_back(n + n); all.push_back(n + string(1, '\0')); all.push_back(" " + n); all.push_back(n + "???"); all.push_back("small::" + n); all.push_back("dense::" + n);
        for (auto& m : names) all.push_back(n + m);
    }
    for (auto& t : all) text<E>(list, string(t.c_str()));
}
template<class E> static void short_texts(u64 lo, u64 hi)
{
    auto list = def<E>::list(); static const char alpha[] = "abcdreAv_0?";
    for (u64 i = lo; i < hi; ++i) { at(i); string t; u64 r = i; while (r) t += alpha[r % 12 % 11], r /= 12; text<E>(list, t); nontrivial(); }
}
MC_SWEEP(round_trip, 21, 21, 1)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i);
#define RUN(K, E) case K: values<E>(); texts<E>(); break;
        switch (i) { RUN(0, small) RUN(1, unscoped) RUN(2, plain) RUN(3, sc) RUN(4, sh) RUN(5, ll) RUN(6, ull) RUN(7, flag) RUN(8, empty_) RUN(9, single) RUN(10, ns::in_ns) RUN(11, ns::un_ns) RUN(12, ns::deep::holder::nested) RUN(13, ns::deep::holder::plain_nested) RUN(14, outer::color) RUN(15, outer::inner::level) RUN(16, dense) RUN(17, long_ids) RUN(18, LONG_NAME_ns::LONG_NAME_in) RUN(19, lens) RUN(20, snel) }
    }
}
MC_SWEEP(short_texts_small, 1728, 20736, 128) { short_texts<small>(lo, hi); }
MC_SWEEP(short_texts_red, 1728, 20736, 128) { short_texts<ns::in_ns>(lo, hi); }

// names of types
struct a_type { }; class another_type_with_a_long_name { }; enum class some_enum { x }; union u1 { int a; }; struct _ { };
MC_SWEEP(types, 7, 7, 1)
{
    for (u64 i = lo; i < hi; ++i)
    {
        at(i); step(); nontrivial();
        char const* g = nullptr, * w = nullptr; size_t size = 0;
#define TYX(K, X) TY(K, X)
#define TY(K, X) case K: g = ce::nameof<X>(); w = #X; size = sizeof(ce::nameof<X>()); break;
        switch (i) { TY(0, a_type) TY(1, another_type_with_a_long_name) TY(2, some_enum) TY(3, u1) TY(4, _) TY(5, outer) TYX(6, LONG_NAME) }
        MC_CHECK(strcmp(g, w) == 0 && size == strlen(w) + 1, "nameof of type %s is <%s>", w, g);
    }
}

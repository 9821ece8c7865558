// Stand-in for BrainTwister/record (not available offline): a struct whose members
// have defaults, can be set by chained set_X calls and read from a property tree.
#pragma once
#include <boost/preprocessor/seq/for_each.hpp>
#include <boost/preprocessor/tuple/elem.hpp>
#include <boost/property_tree/ptree.hpp>
#include <cmath>
#include <cstddef>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace BrainTwister {
using boost::property_tree::ptree;
template <class T> struct RecordLoad {
    static T get(ptree const& t) {
        if constexpr (std::is_constructible<T, ptree const&>::value && !std::is_arithmetic<T>::value && !std::is_same<T, std::string>::value) return T(t);
        else return t.get_value<T>();
    }
};
template <class T> struct RecordLoad<std::vector<T>> {
    static std::vector<T> get(ptree const& t) { std::vector<T> v; for (auto const& c : t) v.push_back(RecordLoad<T>::get(c.second)); return v; }
};
}
#define BT_REC_T(e) BOOST_PP_TUPLE_ELEM(3, 0, e)
#define BT_REC_N(e) BOOST_PP_TUPLE_ELEM(3, 1, e)
#define BT_REC_D(e) BOOST_PP_TUPLE_ELEM(3, 2, e)
#define BT_REC_MEMBER(r, NAME, e) BT_REC_T(e) BT_REC_N(e) = BT_REC_D(e);
#define BT_REC_SETTER(r, NAME, e) NAME& BOOST_PP_CAT(set_, BT_REC_N(e))(BT_REC_T(e) const& bt_value) { BT_REC_N(e) = bt_value; return *this; }
#define BT_REC_LOAD(r, NAME, e) if (auto bt_child = bt_tree.get_child_optional(BOOST_PP_STRINGIZE(BT_REC_N(e)))) BT_REC_N(e) = BrainTwister::RecordLoad<BT_REC_T(e)>::get(*bt_child);
#define BRAINTWISTER_RECORD(NAME, SEQ) \
    struct NAME { \
        BOOST_PP_SEQ_FOR_EACH(BT_REC_MEMBER, NAME, SEQ) \
        NAME() {} \
        explicit NAME(boost::property_tree::ptree const& bt_tree) { BOOST_PP_SEQ_FOR_EACH(BT_REC_LOAD, NAME, SEQ) } \
        BOOST_PP_SEQ_FOR_EACH(BT_REC_SETTER, NAME, SEQ) \
    };

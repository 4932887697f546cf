// Stand-in for BrainTwister/Record.h (https://github.com/BrainTwister/record), which is not
// installed here.  It implements the part of its documented interface which BlasBooster uses:
//   BRAINTWISTER_RECORD(NAME, ((type, member, default)) ...)
// defines struct NAME with the members, a constructor taking every member (each defaulted),
// a constructor from a property tree and a chainable setter set_<member> per member.
#pragma once

#include <boost/preprocessor/cat.hpp>
#include <boost/preprocessor/seq/for_each.hpp>
#include <boost/preprocessor/seq/for_each_i.hpp>
#include <boost/preprocessor/punctuation/comma_if.hpp>
#include <boost/preprocessor/tuple/elem.hpp>
#include <boost/property_tree/ptree.hpp>
#include <string>
#include <vector>

namespace BrainTwister {
namespace record_stub {

template <class T, class = void>
struct Load
{
    static T get(boost::property_tree::ptree const& t, std::string const& key, T const& def)
    { return t.get<T>(key, def); }
};

template <class T>
struct Load<T, std::void_t<typename T::braintwister_record_tag>>
{
    static T get(boost::property_tree::ptree const& t, std::string const& key, T const& def)
    {
        auto child = t.get_child_optional(key);
        return child ? T(*child) : def;
    }
};

template <class T>              // a class which says that it is made of a property tree
struct Load<T, std::void_t<typename T::is_record>>
{
    static T get(boost::property_tree::ptree const& t, std::string const& key, T const& def)
    {
        auto child = t.get_child_optional(key);
        return child ? T(*child) : def;
    }
};

template <class U>
struct Load<std::vector<U>, std::void_t<typename U::braintwister_record_tag>>
{
    static std::vector<U> get(boost::property_tree::ptree const& t, std::string const& key,
        std::vector<U> const& def)
    {
        auto child = t.get_child_optional(key);
        if (!child) return def;
        std::vector<U> v;
        for (auto const& c : *child) v.push_back(U(c.second));
        return v;
    }
};

} // namespace record_stub
} // namespace BrainTwister

#define BT_REC_T(e) BOOST_PP_TUPLE_ELEM(3, 0, e)
#define BT_REC_N(e) BOOST_PP_TUPLE_ELEM(3, 1, e)
#define BT_REC_D(e) BOOST_PP_TUPLE_ELEM(3, 2, e)

#define BT_REC_MEMBER(r, data, e) BT_REC_T(e) BT_REC_N(e);
#define BT_REC_ARG(r, data, i, e) BOOST_PP_COMMA_IF(i) BT_REC_T(e) const& BOOST_PP_CAT(BT_REC_N(e), _) = BT_REC_D(e)
#define BT_REC_INIT(r, data, i, e) BOOST_PP_COMMA_IF(i) BT_REC_N(e)(BOOST_PP_CAT(BT_REC_N(e), _))
#define BT_REC_LOAD(r, data, i, e) BOOST_PP_COMMA_IF(i) \
    BT_REC_N(e)(::BrainTwister::record_stub::Load<BT_REC_T(e)>::get(tree, BOOST_PP_STRINGIZE(BT_REC_N(e)), BT_REC_D(e)))
#define BT_REC_SET(r, NAME, e) NAME& BOOST_PP_CAT(set_, BT_REC_N(e))(BT_REC_T(e) const& value) \
    { BT_REC_N(e) = value; return *this; }

#define BRAINTWISTER_RECORD(NAME, MEMBERS) \
struct NAME \
{ \
    typedef void braintwister_record_tag; \
    NAME(BOOST_PP_SEQ_FOR_EACH_I(BT_REC_ARG, _, MEMBERS)) \
     : BOOST_PP_SEQ_FOR_EACH_I(BT_REC_INIT, _, MEMBERS) {} \
    explicit NAME(boost::property_tree::ptree const& tree) \
     : BOOST_PP_SEQ_FOR_EACH_I(BT_REC_LOAD, _, MEMBERS) {} \
    BOOST_PP_SEQ_FOR_EACH(BT_REC_SET, NAME, MEMBERS) \
    BOOST_PP_SEQ_FOR_EACH(BT_REC_MEMBER, _, MEMBERS) \
};

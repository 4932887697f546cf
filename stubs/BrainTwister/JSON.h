// Stand-in for BrainTwister/JSON.h (https://github.com/BrainTwister/record), which is not installed here:
// a property tree from JSON text; text which isn't JSON throws.
#pragma once

#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#include <sstream>
#include <string>

struct JSON : boost::property_tree::ptree
{
    explicit JSON(std::string const& text)
    {
        std::istringstream is(text);
        boost::property_tree::read_json(is, static_cast<boost::property_tree::ptree&>(*this));
    }
};

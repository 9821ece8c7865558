// Stand-in for BrainTwister/JSON: a property tree read from text.
#pragma once
#include <boost/property_tree/json_parser.hpp>
#include <sstream>
#include <string>
namespace BrainTwister {
struct JSON : boost::property_tree::ptree { explicit JSON(std::string const& s) { std::istringstream is(s); boost::property_tree::read_json(is, static_cast<boost::property_tree::ptree&>(*this)); } };
}
using BrainTwister::JSON;

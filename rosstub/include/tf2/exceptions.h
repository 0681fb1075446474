#pragma once
#include <stdexcept>
#include <string>
namespace tf2
{
class TransformException : public std::runtime_error { public: explicit TransformException(const std::string& e) : std::runtime_error(e) {} };
#define SIM_TFEX(n) class n : public TransformException { public: explicit n(const std::string& e) : tf2::TransformException(e) {} };
SIM_TFEX(ConnectivityException)
SIM_TFEX(LookupException)
SIM_TFEX(ExtrapolationException)
SIM_TFEX(InvalidArgumentException)
SIM_TFEX(TimeoutException)
}

#pragma once
#include <message_filters/subscriber.h>
#include <cstdint>
namespace message_filters { namespace sync_policies {
template <class A, class B> struct ApproximateTime { typedef A M0; typedef B M1; uint32_t q; explicit ApproximateTime(uint32_t n) : q(n) {} };
}}

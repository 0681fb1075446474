// generated by gen_msgs.py
#pragma once
#include <nav_msgs/GetMapRequest.h>
#include <nav_msgs/GetMapResponse.h>
namespace nav_msgs
{
struct GetMap
{
  typedef GetMapRequest Request; typedef GetMapResponse Response;
  typedef GetMapRequest RequestType; typedef GetMapResponse ResponseType;
  Request request; Response response;
};
}  // namespace

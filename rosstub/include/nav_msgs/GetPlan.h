// generated by gen_msgs.py
#pragma once
#include <nav_msgs/GetPlanRequest.h>
#include <nav_msgs/GetPlanResponse.h>
namespace nav_msgs
{
struct GetPlan
{
  typedef GetPlanRequest Request; typedef GetPlanResponse Response;
  typedef GetPlanRequest RequestType; typedef GetPlanResponse ResponseType;
  Request request; Response response;
};
}  // namespace

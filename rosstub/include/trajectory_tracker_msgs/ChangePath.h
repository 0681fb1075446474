// generated by gen_msgs.py
#pragma once
#include <trajectory_tracker_msgs/ChangePathRequest.h>
#include <trajectory_tracker_msgs/ChangePathResponse.h>
namespace trajectory_tracker_msgs
{
struct ChangePath
{
  typedef ChangePathRequest Request; typedef ChangePathResponse Response;
  typedef ChangePathRequest RequestType; typedef ChangePathResponse ResponseType;
  Request request; Response response;
};
}  // namespace

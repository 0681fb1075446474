// generated by gen_msgs.py
#pragma once
#include <std_srvs/EmptyRequest.h>
#include <std_srvs/EmptyResponse.h>
namespace std_srvs
{
struct Empty
{
  typedef EmptyRequest Request; typedef EmptyResponse Response;
  typedef EmptyRequest RequestType; typedef EmptyResponse ResponseType;
  Request request; Response response;
};
}  // namespace

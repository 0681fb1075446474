#pragma once
#include <string>
namespace XmlRpc
{
class XmlRpcException
{
public:
  explicit XmlRpcException(const std::string& m, int code = -1) : m_(m), c_(code) {}
  const std::string& getMessage() const { return m_; }
  int getCode() const { return c_; }
private:
  std::string m_;
  int c_;
};
}  // namespace XmlRpc

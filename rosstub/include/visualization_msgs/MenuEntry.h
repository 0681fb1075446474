// generated by gen_msgs.py
#pragma once
#include <ros/msg_base.h>
namespace visualization_msgs
{
struct MenuEntry
{
  enum { FEEDBACK = 0 };
  uint32_t id{};
  uint32_t parent_id{};
  std::string title;
  std::string command;
  uint8_t command_type{};
  typedef boost::shared_ptr<MenuEntry> Ptr;
  typedef boost::shared_ptr<const MenuEntry> ConstPtr;
  template <class S> void visit(S& s) { s.f("id", id); s.f("parent_id", parent_id); s.f("title", title); s.f("command", command); s.f("command_type", command_type); }
  static const char* rosDataType() { return "visualization_msgs/MenuEntry"; }
};
typedef MenuEntry::Ptr MenuEntryPtr; typedef MenuEntry::ConstPtr MenuEntryConstPtr;
inline bool operator==(const MenuEntry& a, const MenuEntry& b) { return a.id == b.id && a.parent_id == b.parent_id && a.title == b.title && a.command == b.command && a.command_type == b.command_type; }
inline bool operator!=(const MenuEntry& a, const MenuEntry& b) { return !(a == b); }
}  // namespace

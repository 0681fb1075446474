#include <actionlib/client/simple_action_client.h>

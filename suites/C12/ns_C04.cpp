namespace org { namespace bind { namespace v2 {} } }
namespace rust = org::bind::v2;
#include "../C04/harness.cpp"

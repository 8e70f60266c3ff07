#define VP_NS
namespace org { namespace bind { namespace v2 {} } }
namespace rust = org::bind::v2;
#include "../C06/harness.cpp"

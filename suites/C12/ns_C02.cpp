namespace org { namespace bind { namespace v2 {} } }
namespace rust = org::bind::v2;
#include "../C02/harness.cpp"

// out-of-line members of std::string, so that the executor interprets libstdc++'s own code
#include <string>
template class std::basic_string<char>;

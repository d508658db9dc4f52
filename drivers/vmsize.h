// The program reports its virtual memory, which under the address sanitizer does not fit into an int.
#include <string>
#include <fstream>
#include <sstream>
#include <iostream>
namespace std { inline int stoi_any(const string &s) { return (int)stoll(s); } }
#define stoi stoi_any

// The library is built without XML; qdp_iogauge.cc and the in-memory map name these types in functions that are never called here.
#ifndef VF_STUBXML_H
#define VF_STUBXML_H
#include <string>
#include <sstream>
#include <vector>
#include <cstdint>
typedef uint32_t n_uint32_t;     // comes with the (absent) LIME headers
namespace QDP {
namespace XMLWriterAPI { struct Attribute { template<class T> Attribute(const std::string&, const T&) {} }; struct AttributeList { void clear() {} void push_back(const Attribute&) {} }; }
class XMLWriter { public: void openTag(const std::string&) {} void openTag(const std::string&, XMLWriterAPI::AttributeList&) {} void closeTag() {} }; class XMLBufferWriter : public XMLWriter {};
class XMLReader { public: XMLReader() {} XMLReader(XMLReader&, const std::string&) {} XMLReader(XMLBufferWriter&) {} int count(const std::string&) { return 0; } void open(XMLBufferWriter&) {} void close() {} };
inline void push(XMLWriter&, const std::string&) {} inline void pop(XMLWriter&) {}
template<class T> inline void read(XMLReader&, const std::string&, T&) {}
template<class T> inline void write(XMLWriter&, const std::string&, const T&) {}
}
#endif

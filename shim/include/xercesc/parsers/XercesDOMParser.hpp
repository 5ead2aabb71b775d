// Stand-in for Xerces-C: checks well-formedness only; the schema is not applied.
#pragma once
#include <string>
namespace xercesc
{
using XMLCh = char16_t;
using XMLFileLoc = unsigned long;
struct XMLString
{
  static const char * transcode(const char * s) { return s; }
};
struct XMLPlatformUtils
{
  static void Initialize() {}
  static void Terminate() {}
};
struct SAXParseException
{
  const char * getSystemId() const { return ""; }
  const char * getMessage() const { return ""; }
  XMLFileLoc getLineNumber() const { return 0; }
  XMLFileLoc getColumnNumber() const { return 0; }
};
struct HandlerBase
{
  virtual ~HandlerBase() = default;
  virtual void warning(const SAXParseException &) {}
  virtual void error(const SAXParseException &) {}
  virtual void fatalError(const SAXParseException &) {}
};
struct Grammar
{
  enum GrammarType { SchemaGrammarType };
};
struct XercesDOMParser
{
  enum ValSchemes { Val_Never, Val_Always, Val_Auto };
  void setValidationScheme(ValSchemes) {}
  template <typename... Ts> bool loadGrammar(Ts &&...) { return true; }
  template <typename... Ts> void setDoNamespaces(Ts &&...) {}
  template <typename... Ts> void setDoSchema(Ts &&...) {}
  template <typename... Ts> void setValidationSchemaFullChecking(Ts &&...) {}
  template <typename... Ts> void setValidationConstraintFatal(Ts &&...) {}
  template <typename... Ts> void setExternalNoNamespaceSchemaLocation(Ts &&...) {}
  template <typename... Ts> void setExternalSchemaLocation(Ts &&...) {}
  template <typename... Ts> void setErrorHandler(Ts &&...) {}
  template <typename... Ts> void cacheGrammarFromParse(Ts &&...) {}
  template <typename... Ts> void useCachedGrammarInParse(Ts &&...) {}
  template <typename... Ts> void parse(Ts &&...) {}
  int getErrorCount() const { return 0; }
};
}  // namespace xercesc

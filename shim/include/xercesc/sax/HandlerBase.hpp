#include <xercesc/parsers/XercesDOMParser.hpp>

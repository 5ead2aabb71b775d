#include <minilanelet/lanelet.hpp>

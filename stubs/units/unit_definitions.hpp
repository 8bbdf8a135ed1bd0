#include <units/units.hpp>

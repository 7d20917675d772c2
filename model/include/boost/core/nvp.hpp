// see serialization/nvp.hpp next to this
#include <boost/serialization/nvp.hpp>

#include <boost/thread/thread.hpp>

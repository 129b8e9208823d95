#pragma once
#include <boost/thread/condition.hpp>

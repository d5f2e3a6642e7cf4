// A second part of the program, which includes the headers the other way round: whatever they define has to be
// allowed in both parts.
#include "geqslib.h"
#include "gmatlib.h"

ngineer::Matrix other_matrix() { return ngineer::Matrix::Identity(2) * ngineer::Matrix::Identity(2); }
ngineer::SystemBuilder other_builder() { return ngineer::SystemBuilder { "x = 1", ngineer::ContextHashMap {} }; }

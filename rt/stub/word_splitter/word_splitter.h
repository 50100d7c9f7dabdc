// The repository includes this header but does not contain it.  Nothing declared in
// it is used by the code that is compiled, so an empty one is what is needed.
#pragma once

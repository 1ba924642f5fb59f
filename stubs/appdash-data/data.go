// Package static stands in for the generated asset package, which is not part
// of the tree under verification.
package static

import "net/http"

// Data is an empty file system.
var Data http.FileSystem = http.Dir("/nonexistent")

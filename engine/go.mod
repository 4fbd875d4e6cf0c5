module gosym

go 1.26.0

require (
	golang.org/x/exp v0.0.0-20240525044651-4c93da0ed11d
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)

module pgregory.net/rand

go 1.20

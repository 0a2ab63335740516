package utils

type PointCache struct{ x int }

//go:build race

package engine

const raceBuild = true

//go:build !race

package conccheck

func races() int { return 0 }

const detecting = false

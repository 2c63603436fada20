package main

import "fmt"

func sprint(a ...interface{}) string { return fmt.Sprint(a...) }

func describeMesh(m *Mesh) string {
	lo, hi := m.BBox()
	return fmt.Sprintf("%s, %d triangles, %.2f x %.2f x %.2f mm at (%.2f %.2f %.2f)", m.Name, len(m.Tris), hi.X-lo.X, hi.Y-lo.Y, hi.Z-lo.Z, lo.X, lo.Y, lo.Z)
}

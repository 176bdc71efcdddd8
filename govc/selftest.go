package main

func selfTest(root string) int { return 0 }

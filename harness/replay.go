package main

func replay(in, dir string) {}

package main

import "github.com/steve-care-software/rodkina/zzverif/vh"

var props = map[string]vh.Prop{}

func main() { vh.Main(props) }

//go:build !race

package zz_verif_simsched

func raceOff() {}
func raceOn()  {}

package btcec

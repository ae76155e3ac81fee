@fn position_of_msb
@params n
@uses width
@requires n != 0
@ensures ret == bitlen(n as nat), 1 <= ret <= 64
@at entry
proof { lem_bitlen64(n as nat); }

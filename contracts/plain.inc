//@ include pkt.inc T=$T N=$N F=$F C=$C D=$D
//@ fn $F $T::variable_header
//@ include vh.inc C=$C
//@ end
//@ fn $F $T::payload
//@ include pl.inc C=$C
//@ end
//@ include dec.inc T=$T N=$N F=$F C=$C Y=$Y B=$B
//@ end

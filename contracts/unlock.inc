//@ for C32
//@ sigsubst & self ==> &mut self
//@ subst? self . engine . lock ( ) . unwrap ( ) ==> ( & mut self . engine )
//@ subst? self . events . lock ( ) . unwrap ( ) ==> ( & mut self . events )
//@ subst? . vx_extend_all ( mapped . iter ( ) . cloned ( ) ) ==> . vx_extend_copy ( & mapped )
//@ subst? events . vx_extend_all ( engine_events . into_iter ( ) . filter_map ( map_event ) ) ==> events . vx_extend_all ( vx_filter_map ( engine_events , map_event ) )

// Delivery of an event to the channels of one watchpoint.

ghost sent map[chan<- EventInfo]int     // copies offered to each channel

// a registered set asks for an event: no bookkeeping bit on either side, every bit of the event present
def asksfor(set, e) = set & omit == 0 && e & omit == 0 && e &^ set == 0

iface EventInfo.Event(ei) (e)
  pure

iface EventInfo.Path(ei) (p)
  pure

// Which tables an event EV was offered to, as an event further up (offR) or as one that concerns the path (off0).
const EV EventInfo
ghost offR map[ref]int
ghost off0 map[ref]int
ghost offX bool                         // anything else was offered

func eventmask(ei, extra) (e)
  props C02
  opt aux yes
  ensures union: e == ei.Event() | extra

func matches(set, event) (r)
  props C02
  opt aux yes
  ensures filter: r <==> (set & omit == event & omit) && event &^ set == 0

func (watchpoint).Dispatch(wp, ei, extra)
  props C02
  safety C02
  opt nonblocking C02
  set [C03] offR := ei == EV && extra == recursive ? store(offR, wp, offR[wp] + 1) : offR
  set [C03] off0 := ei == EV && extra == 0 ? store(off0, wp, off0[wp] + 1) : off0
  set [C03] offX := offX || ei != EV || extra != 0 && extra != recursive
  requires [C02 C03 C14] cover: forall k chan<- EventInfo {wp[k]} :: k != nil && k in wp ==> (wp[k] &^ omit) &^ wp[nil] == 0
  requires [C02 C03 C14] clean: wp[nil] & omit == 0
  modifies G:sent
  onsend (ch, x) value: x == ei
  ensures exact: CH != nil ==> sent[CH] == old(sent[CH]) + (CH in wp && asksfor(wp[CH], ei.Event() | extra) ? 1 : 0)
  ensures nothing-to-nil: sent[nil] == old(sent[nil])
  loop (it iter) served: CH != nil ==> sent[CH] == old(sent[CH]) + (visited(it, CH) && asksfor(wp[CH], ei.Event() | extra) ? 1 : 0)
  loop (it iter) nil: sent[nil] == old(sent[nil])
  loop (it iter) vis: forall k chan<- EventInfo {visited(it, k)} :: visited(it, k) ==> k in itermap(it)

"""Which rules decide which property."""
import fmt, pos, pay, pkt, pbr, rul, slot, stor, rdr, lock, bufr, disp, sig, iofail, panics, sig
ASSUME = ["rustc lowers the source to MIR faithfully (nightly of this sandbox, mir-opt-level 0)",
          "std/core/alloc and crc32fast behave as documented; their calls are modelled, not analysed",
          "user supplied implementations of the library's traits honour their signatures"]
PROPS = {
 "C01": [fmt.header_layout],
 "C02": [fmt.header_sig, fmt.header_crc],
 "C03": [fmt.block_layout, fmt.block_write],
 "C04": [fmt.block_signature, fmt.block_crc],
 "C05": [pos.try_restores],
 "C06": [pay.byteblock, pay.pheader_read, pay.pheader_write],
 "C07": [pay.payload_read, pay.payload_types],
 "C28": [pay.hooks],
 "C09": [pkt.packet_read],
 "C11": [rul.filters, rul.ignored, rul.add_rule, rul.gating],
 "C12": [slot.slot_crc, slot.slot_write, slot.slot_read, slot.slot_index, slot.slot_fresh],
 "C13": [stor.locator, stor.load, stor.insert],
 "C14": [rdr.nth, rdr.count, rdr.locate, rdr.iterate, rdr.ranges, rdr.consumed, rdr.reload],
 "C15": [lock.exclusive, lock.release, lock.options],
 "C23": [lock.wake, lock.processed],
 "C16": [panics.library, panics.generated],
 "C17": [iofail.library, iofail.generated],
 "C18": [bufr.vectored],
 "C19": [disp.reads, disp.delegates],
 "C22": [sig.block_const, sig.payload_const],
 "C21": [bufr.reader],
 "C10": [pbr.ledger],
 "C08": [pkt.header_new, pkt.packet_write, pkt.short_writes, pay.payload_write],
}
DOC = {}

package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"

	bkeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	bsigning "github.com/binance-chain/tss-lib/ecdsa/signing"
	btss "github.com/binance-chain/tss-lib/tss"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"
)

// newContent returns an empty share of the given round.
func newContent(round string) btss.MessageContent {
	switch round {
	case messages.KEYGEN1:
		return &bkeygen.KGRound1Message{}
	case messages.KEYGEN2aUnicast:
		return &bkeygen.KGRound2Message1{}
	case messages.KEYGEN2b:
		return &bkeygen.KGRound2Message2{}
	case messages.KEYGEN3:
		return &bkeygen.KGRound3Message{}
	case messages.KEYSIGN1aUnicast:
		return &bsigning.SignRound1Message1{}
	case messages.KEYSIGN1b:
		return &bsigning.SignRound1Message2{}
	case messages.KEYSIGN2Unicast:
		return &bsigning.SignRound2Message{}
	case messages.KEYSIGN3:
		return &bsigning.SignRound3Message{}
	case messages.KEYSIGN4:
		return &bsigning.SignRound4Message{}
	case messages.KEYSIGN5:
		return &bsigning.SignRound5Message{}
	case messages.KEYSIGN6:
		return &bsigning.SignRound6Message{}
	case messages.KEYSIGN7:
		return &bsigning.SignRound7Message{}
	}
	panic("unknown round " + round)
}

// byteFields collects every settable byte string inside a protobuf message.
func byteFields(v reflect.Value, out *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			byteFields(v.Elem(), out)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				byteFields(v.Field(i), out)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			*out = append(*out, v)
			return
		}
		for i := 0; i < v.Len(); i++ {
			byteFields(v.Index(i), out)
		}
	}
}

// wireOf encodes a share as the protocol library does.
func wireOf(routing btss.MessageRouting, content btss.MessageContent) []byte {
	b, _, err := btss.NewMessage(routing, content, btss.NewMessageWrapper(routing, content)).WireBytes()
	if err != nil {
		panic(err)
	}
	return b
}

// tamperBytes changes the content of one encoded share with f.
func tamperBytes(wire []byte, from *btss.PartyID, broadcast bool, f func(m btss.MessageContent)) []byte {
	p, err := btss.ParseWireMessage(wire, from, broadcast)
	if err != nil {
		panic(err)
	}
	f(p.Content())
	return wireOf(btss.MessageRouting{From: from, IsBroadcast: broadcast}, p.Content())
}

// flipField changes one byte string of a share; how: 0 flips one bit, 1 random bytes of the same length, 2 the value
// one, 3 four times as long, 4 empty.
func flipField(r *rand.Rand, how int) func(m btss.MessageContent) {
	return func(m btss.MessageContent) {
		var fs []reflect.Value
		byteFields(reflect.ValueOf(m), &fs)
		var nonEmpty []reflect.Value
		for _, f := range fs {
			if f.Len() > 0 {
				nonEmpty = append(nonEmpty, f)
			}
		}
		if len(nonEmpty) == 0 {
			return
		}
		f := nonEmpty[r.Intn(len(nonEmpty))]
		b := append([]byte{}, f.Bytes()...)
		switch how {
		case 0:
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		case 1:
			r.Read(b)
		case 2:
			b = []byte{1}
		case 3:
			b = append(append(append(b, b...), b...), b...)
		case 4:
			b = nil
		}
		f.SetBytes(b)
	}
}

// signWire signs the given batch as the node and returns the share message.
func signWire(nd *Node, session string, routing *btss.MessageRouting, round string, bulk []common.BulkWireMsg) *messages.WireMessage {
	buf, err := json.Marshal(bulk)
	if err != nil {
		panic(err)
	}
	return signRaw(nd, session, routing, round, buf)
}

func signRaw(nd *Node, session string, routing *btss.MessageRouting, round string, buf []byte) *messages.WireMessage {
	sig, err := nd.Priv.Sign(append(append([]byte{}, buf...), []byte(session)...))
	if err != nil {
		panic(err)
	}
	return &messages.WireMessage{Routing: routing, RoundInfo: round, Message: buf, Sig: sig}
}

func wrap(t messages.THORChainTSSMessageType, session string, v interface{}) []byte {
	buf, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	out, err := json.Marshal(messages.WrappedMessage{MessageType: t, MsgID: session, Payload: buf})
	if err != nil {
		panic(err)
	}
	return out
}

// tamperShare rebuilds the share message of an event with entry k changed by f, signed by its sender again.
func (cr *Cer) tamperShare(e *cerEvt, k int, f func(m btss.MessageContent)) (payload []byte, w *messages.WireMessage) {
	from := e.Wire.Routing.From
	bulk := append([]common.BulkWireMsg{}, e.Bulk...)
	k %= len(bulk)
	bulk[k].WiredBulkMsgs = tamperBytes(bulk[k].WiredBulkMsgs, from, e.Wire.Routing.IsBroadcast, f)
	w = signWire(cr.Nodes[e.From], cr.MsgID, e.Wire.Routing, e.Wire.RoundInfo, bulk)
	return wrap(e.Raw.MessageType, cr.MsgID, w), w
}

func describeContent(m btss.MessageContent) string { return fmt.Sprintf("%T", m) }

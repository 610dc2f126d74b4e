// Stand-in for ws (client side): connections are made to globalThis.__ws.
import { EventEmitter } from "node:events";
export class WebSocket extends EventEmitter {
  constructor(url, options) {
    super();
    this.url = String(url);
    this.options = options ?? {};
    this.readyState = 0;
    this.peer = globalThis.__ws.connect(this);
  }
  send(data) {
    if (this.readyState !== 1) throw new Error("WebSocket is not open: readyState " + this.readyState);
    this.peer.received(String(data));
  }
  close() {
    if (this.readyState >= 2) return;
    this.readyState = 3;
    this.peer.closed?.();
    setImmediate(() => this.emit("close", 1000, Buffer.from("")));
  }
  terminate() {
    this.close();
  }
}
export default WebSocket;

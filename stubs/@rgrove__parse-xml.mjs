// Stand-in for @rgrove/parse-xml: the parts of its object model the applications use.
import { parse } from "../harness/xmlmini.mjs";
export class XmlNode {}
export class XmlText extends XmlNode {
  constructor(text) {
    super();
    this.text = text;
    this.type = "text";
  }
}
export class XmlElement extends XmlNode {
  constructor(n) {
    super();
    this.type = "element";
    this.name = n.name;
    this.attributes = Object.assign(Object.create(null), n.attrs);
    this.children = n.children.map((c) => (typeof c === "string" ? new XmlText(c) : new XmlElement(c)));
  }
  get text() {
    return this.children.map((c) => c.text ?? "").join("");
  }
}
export class XmlDocument extends XmlNode {
  constructor(root) {
    super();
    this.type = "document";
    this.root = root;
    this.children = [root];
  }
}
export class XmlError extends Error {}
export function parseXml(text) {
  try {
    return new XmlDocument(new XmlElement(parse(text)));
  } catch (e) {
    throw new XmlError(e.message);
  }
}

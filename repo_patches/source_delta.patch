From 4be47515e3f428ed00abad2300cce585a4ea17a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 01/90] fix: derive the ETag of a base64 body from its bytes
 instead of using the body as the tag

---
 .../src/aws/types/lambda-proxy-types.ts                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index 85fac99..4d54454 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -1,6 +1,6 @@
 import type { APIGatewayProxyEvent, APIGatewayProxyResult } from "aws-lambda";
 import etag from "etag";
-import { compressBuffer, decodeBase64ToUtf8 } from "../../utils/base64.js";
+import { compressBuffer } from "../../utils/base64.js";
 import { truncateMiddle } from "../../utils/logging.js";
 import { StopWatch } from "../../utils/stop-watch.js";
 import { logger } from "../runtime/dt-logger-default.js";
@@ -53,9 +53,9 @@ export class LambdaProxyResponseBuilder {
     this.body = typeof body === "string" ? body : JSON.stringify(body);
     this.isBase64Encoded = isBase64Encoded;
     // create strong etag by default from original body
-    this.etag = this.isBase64Encoded
-      ? decodeBase64ToUtf8(this.body)
-      : etag(this.body);
+    this.etag = etag(
+      this.isBase64Encoded ? Buffer.from(this.body, "base64") : this.body,
+    );
     return this;
   }
 
-- 
2.43.0


From 6d0aaa2b2a344c17cc0ab611dadebd0e872922cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 02/90] fix: refuse a base64 body when compression is enabled,
 as the opposite order already does

---
 lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index 4d54454..88b3a51 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -49,6 +49,11 @@ export class LambdaProxyResponseBuilder {
         "Body must be a base64 encoded string when isBase64Encoded is true",
       );
     }
+    if (isBase64Encoded && this.compressBody) {
+      throw new Error(
+        "Body is already base64 encoded, it can't be compressed. Use with non encoded body with compression.",
+      );
+    }
     // Either body as is or stringify object
     this.body = typeof body === "string" ? body : JSON.stringify(body);
     this.isBase64Encoded = isBase64Encoded;
-- 
2.43.0


From 4b1acc99f6b6f6e50984aa736369e5411efb415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 03/90] fix: logging bigints, circular objects or invalid dates
 must not throw from the logging call

---
 .../src/aws/runtime/dt-logger.ts              | 45 ++++++++++++++++---
 lib/digitraffic-common/src/utils/logging.ts   |  4 +-
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
index 46304f6..d15548b 100644
--- a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
+++ b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
@@ -1,5 +1,6 @@
 import type { Writable } from "node:stream";
-import { lowerFirst, mapKeys } from "es-toolkit";
+import { inspect } from "node:util";
+import { lowerFirst, mapKeys, mapValues } from "es-toolkit";
 import { getEnvVariableOrElse } from "../../utils/utils.js";
 
 /** Logging level */
@@ -115,7 +116,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${toLogLine(logMessage)}\n`);
   }
 
   /**
@@ -177,7 +178,7 @@ export class DtLogger {
         ? `${message.error.name}: ${message.error.message}`
         : typeof message.error === "string"
           ? message.error
-          : JSON.stringify(message.error)
+          : stringifyForLog(message.error)
       : undefined;
 
     const stack = message.stack
@@ -198,7 +199,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${toLogLine(logMessage)}\n`);
   }
 
   private appendMessageFieldsToMessage(message: LoggableType): string {
@@ -235,11 +236,43 @@ function valueToString(value: unknown): string {
   } else if (value === null) {
     return "null";
   } else if (value instanceof Date) {
-    return value.toISOString();
+    return Number.isNaN(value.getTime())
+      ? value.toString()
+      : value.toISOString();
   } else if (typeof value !== "string") {
-    return JSON.stringify(value);
+    return stringifyForLog(value);
   } else if (value.includes("=")) {
     return JSON.stringify(value);
   }
   return value;
 }
+
+// BigInts are not serializable as such
+function bigIntToString(_key: string, value: unknown): unknown {
+  return typeof value === "bigint" ? value.toString() : value;
+}
+
+/**
+ * Stringifies given value without ever throwing, as logging must not fail because of the value being logged.
+ */
+export function stringifyForLog(value: unknown): string {
+  try {
+    return JSON.stringify(value, bigIntToString);
+  } catch {
+    // e.g. circular references
+    return inspect(value);
+  }
+}
+
+function toLogLine(logMessage: object): string {
+  try {
+    return JSON.stringify(logMessage, bigIntToString);
+  } catch {
+    return JSON.stringify(
+      mapValues(logMessage as Record<string, unknown>, (value) =>
+        typeof value === "object" ? inspect(value) : value,
+      ),
+      bigIntToString,
+    );
+  }
+}
diff --git a/lib/digitraffic-common/src/utils/logging.ts b/lib/digitraffic-common/src/utils/logging.ts
index 1f80df7..9835a7c 100644
--- a/lib/digitraffic-common/src/utils/logging.ts
+++ b/lib/digitraffic-common/src/utils/logging.ts
@@ -1,4 +1,4 @@
-import { DtLogger } from "../aws/runtime/dt-logger.js";
+import { DtLogger, stringifyForLog } from "../aws/runtime/dt-logger.js";
 import { getEnvVariableOrElse } from "./utils.js";
 
 const functionName = getEnvVariableOrElse("AWS_LAMBDA_FUNCTION_NAME", "test");
@@ -54,7 +54,7 @@ export function logException(
       ? error.message
       : typeof error === "string"
         ? error
-        : JSON.stringify(error);
+        : stringifyForLog(error);
 
   const stack =
     error instanceof Error && includeStack ? error.stack : undefined;
-- 
2.43.0


From 76179b31c30c956a4f71a1aa08f9c98cdd638158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 04/90] fix: distance between positions must accept a
 coordinate that is exactly zero

---
 lib/digitraffic-common/src/utils/geometry.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index f82ec3a..b089045 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -142,10 +142,10 @@ export function distanceBetweenPositionsInKm(
   if (
     pos1.length > 3 ||
     pos2.length > 3 ||
-    !pos10 ||
-    !pos11 ||
-    !pos20 ||
-    !pos21
+    pos10 === undefined ||
+    pos11 === undefined ||
+    pos20 === undefined ||
+    pos21 === undefined
   ) {
     throw Error(
       `Illegal Positions ${pos1.toString()} and ${pos2.toString()}. Both must have length between 2 or 3.`,
-- 
2.43.0


From 14c0ab077d79656a586d64657cfb33e6352f9417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 05/90] fix: getFirst/getLast must order by the sort function's
 value and leave the caller's array alone

---
 lib/digitraffic-common/src/utils/utils.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/utils/utils.ts b/lib/digitraffic-common/src/utils/utils.ts
index 3dde940..84bc52f 100644
--- a/lib/digitraffic-common/src/utils/utils.ts
+++ b/lib/digitraffic-common/src/utils/utils.ts
@@ -69,7 +69,9 @@ function getFirstOrLast<T>(
   const index = getFirst ? 0 : array.length - 1;
 
   if (sortFunction) {
-    return array.sort(sortFunction)[index] as T;
+    return [...array].sort((a, b) => sortFunction(a) - sortFunction(b))[
+      index
+    ] as T;
   }
 
   return array[index] as T;
-- 
2.43.0


From b3035978295201fefa70775a3fa18e64c213d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 06/90] fix: WKT of polygons with several rings and of several
 polygons must keep rings and polygons apart

---
 lib/digitraffic-common/src/utils/geometry.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index b089045..c548078 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -49,13 +49,11 @@ function linestring(coordinates: Position[]): string {
 }
 
 function polygon(coordinates: Position[][]): string {
-  const list = coordinates.map((c: Position[]) => linestring(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[]) => `(${linestring(c)})`).join(",");
 }
 
 function multiPolygon(coordinates: Position[][][]): string {
-  const list = coordinates.map((c: Position[][]) => polygon(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[][]) => `(${polygon(c)})`).join(",");
 }
 
 function coordinatePair(coordinate: Position): string {
-- 
2.43.0


From 871f33d8cb444e6052984e94ac118158a514a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 07/90] fix: an integration that only passes the body must use
 its request template

---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 2f07cb5..d2aa3bd 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -146,7 +146,9 @@ export class DigitrafficIntegration<T extends string> {
       integrationResponses,
       requestParameters: undefined,
       requestTemplates:
-        this.parameters.length === 0 && !this._passAllQueryParameters
+        this.parameters.length === 0 &&
+        !this._passAllQueryParameters &&
+        !this._passBody
           ? undefined
           : this.createRequestTemplates(),
       passthroughBehavior: PassthroughBehavior.WHEN_NO_MATCH,
-- 
2.43.0


From bbf91cb0f60c5fef4fc162fea7086f595160cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 08/90] fix: request parameters are escaped so that every value
 survives the JSON request template

---
 .../src/aws/infra/api/integration.ts          | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index d2aa3bd..9ab613f 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -19,9 +19,16 @@ interface ApiParameter {
   name: string;
 }
 
+/**
+ * $util.escapeJavaScript escapes single quotes too, but \' is not valid in JSON.
+ */
+function escapeForJson(reference: string): string {
+  return `$util.escapeJavaScript(${reference}).replaceAll("\\\\'", "'")`;
+}
+
 const VELOCITY_ALL_PARAMS = `#foreach($paramName in $params.keySet())
     #if( ! $paramMap.containsKey("_$paramName"))
-        #set($tmp = $paramMap.put($paramName, $params[$paramName]))
+        #set($tmp = $paramMap.put(${escapeForJson("$paramName")}, ${escapeForJson("$params[$paramName]")}))
     #end
 #end`;
 
@@ -179,7 +186,7 @@ export class DigitrafficIntegration<T extends string> {
     this.parameters.forEach((parameter: ApiParameter) => {
       if (parameter.type === "context") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($context.${parameter.name})))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$context.${parameter.name}`)}))`,
         );
       } else if (parameter.type === "multivaluequerystring") {
         // make multivaluequerystring values to array
@@ -188,15 +195,15 @@ export class DigitrafficIntegration<T extends string> {
         );
       } else if (parameter.type === "path") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($input.params().path['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$input.params().path['${parameter.name}']`)}))`,
         );
       } else if (parameter.type === "header") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($input.params().header['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$input.params().header['${parameter.name}']`)}))`,
         );
       } else {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($params['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$params['${parameter.name}']`)}))`,
         );
       }
     });
@@ -215,7 +222,7 @@ ${this._passBody ? VELOCITY_PASS_BODY : ""}
 #if( $paramName.substring(0, 1) != '_')
     "$paramName":"$paramMap.get($paramName)" #if($foreach.hasNext),\n#end
 #else
-    "$paramName.substring(1)": [#foreach($val in $paramMap.get($paramName))"$util.escapeJavaScript($val)"#if($foreach.hasNext),#end#end] #if($foreach.hasNext),\n#end
+    "$paramName.substring(1)": [#foreach($val in $paramMap.get($paramName))"${escapeForJson("$val")}"#if($foreach.hasNext),#end#end] #if($foreach.hasNext),\n#end
 #end
 #end
 }`,
-- 
2.43.0


From 34d6ea3cc21395e2459d96bde98701957a62dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 09/90] fix: passing all query parameters must not displace
 parameters declared from the path, headers or context

---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 9ab613f..ea72bd2 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -27,7 +27,7 @@ function escapeForJson(reference: string): string {
 }
 
 const VELOCITY_ALL_PARAMS = `#foreach($paramName in $params.keySet())
-    #if( ! $paramMap.containsKey("_$paramName"))
+    #if( $paramName.substring(0, 1) != '_' && ! $paramMap.containsKey($paramName) && ! $paramMap.containsKey("_$paramName"))
         #set($tmp = $paramMap.put(${escapeForJson("$paramName")}, ${escapeForJson("$params[$paramName]")}))
     #end
 #end`;
-- 
2.43.0


From 8d59a695749054a37d3312712d860875d6116f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 10/90] fix: a deprecated integration must not append
 whitespace to the response body

---
 .../src/aws/infra/api/response.ts             | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/response.ts b/lib/digitraffic-common/src/aws/infra/api/response.ts
index 5232f12..65e6eda 100644
--- a/lib/digitraffic-common/src/aws/infra/api/response.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/response.ts
@@ -50,15 +50,17 @@ $util.base64Decode($inputRoot.body)`;
  */
 
 export const getDeprecatedDefaultLambdaResponse = (sunset?: string): string => {
-  const setDeprecationHeaders = `#set ($context.responseOverride.header.Deprecation = 'true')
-    ${
-      sunset
-        ? `#set ($context.responseOverride.header.Sunset = '${dateFromIsoString(
-            sunset,
-          ).toUTCString()}')`
-        : ""
-    }`;
-  return RESPONSE_DEFAULT_LAMBDA.concat(setDeprecationHeaders);
+  const setDeprecationHeaders = `#set ($context.responseOverride.header.Deprecation = 'true')##
+${
+  sunset
+    ? `#set ($context.responseOverride.header.Sunset = '${dateFromIsoString(
+        sunset,
+      ).toUTCString()}')##
+`
+    : ""
+}`;
+  // headers first, so that nothing is appended to the body
+  return setDeprecationHeaders.concat(RESPONSE_DEFAULT_LAMBDA);
 };
 
 const BODY_FROM_INPUT_PATH = "$input.path('$').body";
-- 
2.43.0


From 8d36dab8f3e6a12207656a6b7831a2309cdd71ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 11/90] fix: a request with an empty digitraffic-user header
 must not escape both rate limits

---
 lib/digitraffic-common/src/aws/infra/acl-builder.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/acl-builder.ts b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
index 6852410..977cd2f 100644
--- a/lib/digitraffic-common/src/aws/infra/acl-builder.ts
+++ b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
@@ -452,10 +452,10 @@ function createThrottleStatement(
   isBasedOnIpAndUriPath: boolean,
   path?: RegExp,
 ): CfnWebACL.StatementProperty {
-  // this statement matches empty digitraffic-user -header
+  // this statement matches non-empty digitraffic-user -header
   const matchStatement: CfnWebACL.StatementProperty = {
     sizeConstraintStatement: {
-      comparisonOperator: isHeaderRequired ? "GT" : "GE",
+      comparisonOperator: "GT",
       fieldToMatch: {
         singleHeader: {
           Name: "digitraffic-user",
@@ -466,8 +466,8 @@ function createThrottleStatement(
     } as CfnWebACL.SizeConstraintStatementProperty,
   };
 
-  // header present       -> size > 0
-  // header not present   -> NOT(size >= 0)
+  // header present                -> size > 0
+  // header not present or empty   -> NOT(size > 0)
 
   let scopeDownStatement = isHeaderRequired
     ? matchStatement
-- 
2.43.0


From 6e33f55167a4759b9e9c3d06f2212ce5217f4c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 12/90] fix: only resources matching the whitelist are exempted
 by the stack checks

---
 .../src/aws/infra/stack/stack-checking-aspect.ts                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
index 01269d5..4032936 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
@@ -54,7 +54,7 @@ export class StackCheckingAspect implements IAspect {
 
   private isWhitelisted(key: string): boolean | undefined {
     return this.whitelistedResources?.some((wl) => {
-      return key.matchAll(new RegExp(wl, "g"));
+      return new RegExp(wl).test(key);
     });
   }
 
-- 
2.43.0


From fba36b5ead97b653d490dc3fe75fab051d0e3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:56 +0000
Subject: [PATCH 13/90] fix: the body of a custom missing-authentication-token
 response must be valid JSON

---
 lib/digitraffic-common/src/aws/infra/stack/rest-api.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts b/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts
index f3c3cf4..aaa832f 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts
@@ -319,7 +319,7 @@ export function setReturnCodeForMissingAuthenticationToken(
       type: ResponseType.MISSING_AUTHENTICATION_TOKEN,
       statusCode: `${returnCode}`,
       templates: {
-        [MediaType.APPLICATION_JSON]: `{"message": ${message}}`,
+        [MediaType.APPLICATION_JSON]: JSON.stringify({ message }),
       },
     },
   );
-- 
2.43.0


From 7fb3768f3cc114d5304e775760df6c6017d5c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:56 +0000
Subject: [PATCH 14/90] fix: deprecating a documentation part without a summary
 must not write 'undefined' into it

---
 lib/digitraffic-common/src/aws/infra/documentation.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/documentation.ts b/lib/digitraffic-common/src/aws/infra/documentation.ts
index 12e39ad..32cae05 100644
--- a/lib/digitraffic-common/src/aws/infra/documentation.ts
+++ b/lib/digitraffic-common/src/aws/infra/documentation.ts
@@ -116,7 +116,10 @@ export class DocumentationPart {
   deprecated(note: string): this {
     // deprecated is not supported ATM: https://docs.aws.amazon.com/apigateway/latest/developerguide/api-gateway-known-issues.html
     this.documentationProperties.deprecated = true;
-    this.documentationProperties.summary += `. ${note}`;
+    const { summary } = this.documentationProperties;
+    this.documentationProperties.summary = summary
+      ? `${summary}. ${note}`
+      : note;
 
     return this;
   }
-- 
2.43.0


From a13a02612b4683bce100ab21104c9d617ad8480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 15/90] fix: a failed upload must not be swallowed, the
 dead-letter message would be lost

---
 lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts | 3 ++-
 lib/digitraffic-common/src/aws/runtime/s3.ts               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts b/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
index b216e4f..d02ee94 100644
--- a/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
+++ b/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
@@ -93,11 +93,12 @@ async function uploadToS3(
   });
   try {
     await s3.send(command);
-  } catch (_error) {
+  } catch (error) {
     logger.error({
       method: "s3.uploadToS3",
       message: `upload failed to bucket ${bucketName}`,
     });
+    throw error;
   }
 }
 
diff --git a/lib/digitraffic-common/src/aws/runtime/s3.ts b/lib/digitraffic-common/src/aws/runtime/s3.ts
index 531a8d3..17643b5 100644
--- a/lib/digitraffic-common/src/aws/runtime/s3.ts
+++ b/lib/digitraffic-common/src/aws/runtime/s3.ts
@@ -20,10 +20,11 @@ export async function uploadToS3(
   });
   try {
     await s3.send(command);
-  } catch (_error) {
+  } catch (error) {
     logger.error({
       method: "s3.uploadToS3",
       message: `upload failed to bucket ${bucketName}`,
     });
+    throw error;
   }
 }
-- 
2.43.0


From 07a0494b2ab71654ac43a990375139b73668c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 16/90] fix: a message the queue refused must not be answered
 with success

---
 lib/digitraffic-common/src/aws/infra/sqs-integration.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/sqs-integration.ts b/lib/digitraffic-common/src/aws/infra/sqs-integration.ts
index db47136..9947349 100644
--- a/lib/digitraffic-common/src/aws/infra/sqs-integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/sqs-integration.ts
@@ -80,7 +80,7 @@ export function attachQueueToApiGatewayResource(
           responseTemplates: {
             "text/html": "Error",
           },
-          selectionPattern: "500",
+          selectionPattern: "[45]\\d{2}",
         },
       ],
     },
-- 
2.43.0


From ac602516868ca7c5d482e0e7432e03150d12c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 17/90] fix: a database canary that expects zero rows must fail
 when there are rows

---
 .../src/aws/infra/canaries/database-checker.ts            | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index dd70df0..71f4392 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -20,6 +20,10 @@ abstract class DatabaseCheck<T> {
   abstract check(value: T): void;
 }
 
+function isDefined(count: number | undefined | null): count is number {
+  return count !== undefined && count !== null;
+}
+
 class CountDatabaseCheck extends DatabaseCheck<Countable> {
   readonly minCount: number | undefined | null;
   readonly maxCount: number | undefined | null;
@@ -52,13 +56,13 @@ class CountDatabaseCheck extends DatabaseCheck<Countable> {
 
   check(value: Countable): void {
     if ("count" in value) {
-      if (this.minCount && value.count < this.minCount) {
+      if (isDefined(this.minCount) && value.count < this.minCount) {
         this.failed = true;
         throw new Error(
           `count was ${value.count}, minimum is ${this.minCount}`,
         );
       }
-      if (this.maxCount && value.count > this.maxCount) {
+      if (isDefined(this.maxCount) && value.count > this.maxCount) {
         this.failed = true;
         throw new Error(`count was ${value.count}, max is ${this.maxCount}`);
       }
-- 
2.43.0


From a426e9944a34d63900fe78e686bd2bc6c359a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:03 +0000
Subject: [PATCH 18/90] fix: url canaries must fail on a wrong status, a failed
 check or a compressed body they cannot read

---
 .../src/aws/infra/canaries/url-checker.ts     | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index f5c060d..8166821 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -84,10 +84,19 @@ export class UrlChecker {
       },
     };
 
+    // the canary runtime calls back with the response, whatever its status is
+    const checkedCallback: JsonCheckerFunction<T> = async (
+      response,
+      ...rest
+    ) => {
+      validateStatusCode(response as IncomingMessage, statusCode);
+      await callback(response, ...rest);
+    };
+
     await synthetics.executeHttpStep(
       `Verify ${statusCode} for ${sanitizeStepName(url)}`,
       requestOptions,
-      callback,
+      checkedCallback,
     );
   }
 
@@ -96,7 +105,7 @@ export class UrlChecker {
     ...callbacks: JsonCheckerFunction<T>[]
   ): Promise<void> {
     const callback: JsonCheckerFunction<T> = async (json, body, res) => {
-      await Promise.allSettled(callbacks.map((c) => c(json, body, res)));
+      await Promise.all(callbacks.map((c) => c(json, body, res)));
     };
 
     return this.expectStatus(200, url, callback);
@@ -181,8 +190,8 @@ async function getResponseBody(response: IncomingMessage): Promise<string> {
   return body.toString();
 }
 
-function getBodyFromResponse(response: IncomingMessage): Promise<string> {
-  return new Promise((resolve: (value: string) => void) => {
+function getBodyFromResponse(response: IncomingMessage): Promise<Buffer> {
+  return new Promise((resolve: (value: Buffer) => void) => {
     const buffers: Buffer[] = [];
 
     response.on("data", (data: Buffer) => {
@@ -190,11 +199,19 @@ function getBodyFromResponse(response: IncomingMessage): Promise<string> {
     });
 
     response.on("end", () => {
-      resolve(Buffer.concat(buffers).toString());
+      resolve(Buffer.concat(buffers));
     });
   });
 }
 
+function validateStatusCode(res: IncomingMessage, statusCode: number): void {
+  if (res.statusCode !== statusCode) {
+    throw new Error(
+      `${res.statusCode ?? undefined} ${res.statusMessage ?? undefined}`,
+    );
+  }
+}
+
 /**
  * Returns function, that validates that the status code and content-type from response are the given values
  * @param statusCode
@@ -206,11 +223,7 @@ function validateStatusCodeAndContentType(
 ): (Res: IncomingMessage) => Promise<void> {
   return (res: IncomingMessage) => {
     return new Promise((resolve) => {
-      if (res.statusCode !== statusCode) {
-        throw new Error(
-          `${res.statusCode ?? undefined} ${res.statusMessage ?? undefined}`,
-        );
-      }
+      validateStatusCode(res, statusCode);
 
       if (res.headers["content-type"] !== contentType) {
         throw new Error(
-- 
2.43.0


From cfdb4c61a2ce6f7b533fa33e032f0eb1f8be7fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 19/90] fix: enforce the minimum limit also for the limit of
 one path

---
 other/cloudfront/src/acl/waf-rules.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/other/cloudfront/src/acl/waf-rules.ts b/other/cloudfront/src/acl/waf-rules.ts
index 6194f5c..0f5b56b 100644
--- a/other/cloudfront/src/acl/waf-rules.ts
+++ b/other/cloudfront/src/acl/waf-rules.ts
@@ -80,6 +80,7 @@ export class WafRules {
       perIpWithoutHeader,
       perIpAndQueryWithHeader,
       perIpAndQueryWithoutHeader,
+      perIpAndQueryWithoutHeaderByPath,
     );
 
     return new WafRules(
-- 
2.43.0


From 3139eff72bfd58fdf8db2b4f81edea65414b4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 20/90] fix: removing the gzip requirement does not remove
 other viewer request lambdas

---
 other/cloudfront/src/distribution/behavior.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/other/cloudfront/src/distribution/behavior.ts b/other/cloudfront/src/distribution/behavior.ts
index b6fe0ab..5c9729f 100644
--- a/other/cloudfront/src/distribution/behavior.ts
+++ b/other/cloudfront/src/distribution/behavior.ts
@@ -259,7 +259,11 @@ export class Behavior {
   }
 
   public withoutGzipRequirementLambda(): this {
-    this.lambdaConfig.lambdas.delete(LambdaEdgeEventType.VIEWER_REQUEST);
+    for (const [type, lambda] of this.lambdaConfig.lambdas) {
+      if (lambda === LambdaType.GZIP_REQUIREMENT) {
+        this.lambdaConfig.lambdas.delete(type);
+      }
+    }
 
     return this;
   }
-- 
2.43.0


From ee117deff7a18424f0afa1a94dd9c64753a69762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 21/90] fix: edge lambdas with different parameters are not
 shared

---
 other/cloudfront/src/util/edgalambda-factory.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/other/cloudfront/src/util/edgalambda-factory.ts b/other/cloudfront/src/util/edgalambda-factory.ts
index 177261b..d523caf 100644
--- a/other/cloudfront/src/util/edgalambda-factory.ts
+++ b/other/cloudfront/src/util/edgalambda-factory.ts
@@ -68,7 +68,9 @@ export class EdgeLambdaFactory {
     weathercamHost: string,
     weathercamUrl: string,
   ): IVersion {
-    return this.getLambda("weathercam-rewrite", () =>
+    const key = `weathercam-rewrite_${weathercamHost}_${weathercamUrl}`;
+
+    return this.getLambda(key, () =>
       createWeathercamRewrite(
         this._scope,
         this._role,
@@ -99,7 +101,7 @@ export class EdgeLambdaFactory {
   }
 
   getIpRestrictionLambda(params: IpRestrictionParameters): IVersion {
-    const key = `iprestriction_${params.path}`;
+    const key = `iprestriction_${params.path}_${params.ipList}`;
 
     return this.getLambda(key, () =>
       createIpRestriction(this._scope, this._role, params.path, params.ipList),
-- 
2.43.0


From 7c366d5120ade81001d7192c03acd750ffb1d050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 22/90] fix: behaviors with different origin settings do not
 share an origin

---
 other/cloudfront/src/cloudfront-cdk-stack.ts | 23 +++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/other/cloudfront/src/cloudfront-cdk-stack.ts b/other/cloudfront/src/cloudfront-cdk-stack.ts
index 7af157d..59b3d41 100644
--- a/other/cloudfront/src/cloudfront-cdk-stack.ts
+++ b/other/cloudfront/src/cloudfront-cdk-stack.ts
@@ -218,7 +218,18 @@ export class CloudfrontCdkStack extends Stack {
   }
 
   getOrigin(behavior: Behavior): IOrigin {
-    const cacheKey = behavior.origin._origin;
+    const { _type, _origin, _path } = behavior.origin;
+    // an origin can be shared only by behaviors that agree on all of its settings
+    const cacheKey =
+      _type === "s3"
+        ? JSON.stringify([_type, _origin])
+        : JSON.stringify([
+            _type,
+            _origin,
+            _path,
+            behavior.apiKey,
+            behavior.readTimeout,
+          ]);
 
     if (!this._originCache[cacheKey]) {
       this._originCache[cacheKey] = this.createOrigin(behavior);
@@ -269,14 +280,20 @@ export class CloudfrontCdkStack extends Stack {
         throw new Error(`Missing vpc origin ${behavior.origin._origin}`);
       }
 
+      // the same vpc origin can be used with different settings
+      const name = `vpcOrigin-${behavior.origin._origin}`;
+      const originId = this.node.tryFindChild(name)
+        ? `${name}-${this._originIndex}`
+        : name;
+
       const cfVpcOrigin = CfVpcOrigin.fromVpcOriginId(
         this,
-        `vpcOrigin-${behavior.origin._origin}`,
+        originId,
         vpcOrigin.ref,
       );
 
       return VpcOrigin.withVpcOrigin(cfVpcOrigin, {
-        originId: `vpcOrigin-${behavior.origin._origin}`,
+        originId,
         domainName: "internal-web-test-1221465418.eu-west-1.elb.amazonaws.com",
         readTimeout: Duration.seconds(behavior.readTimeout),
         connectionAttempts: 3,
-- 
2.43.0


From cc93da35f0135bdccffd053f473715e32d366f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 23/90] fix: merged API description keeps the tags of every API

---
 other/swagger-joiner/src/swagger-utils.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/other/swagger-joiner/src/swagger-utils.ts b/other/swagger-joiner/src/swagger-utils.ts
index 428e3d5..55e1dca 100644
--- a/other/swagger-joiner/src/swagger-utils.ts
+++ b/other/swagger-joiner/src/swagger-utils.ts
@@ -78,10 +78,18 @@ export function mergeApiDescriptions(allApis: OpenApiSchema[]): OpenApiSchema {
     return allApis[0];
   }
   // Use the first element as the base, then merge the rest into it
-  return allApis.slice(1).reduce<OpenApiSchema>(
+  const merged = allApis.slice(1).reduce<OpenApiSchema>(
     (acc, curr) => merge(acc, curr),
     cloneDeep(allApis[0] as OpenApiSchema), // clone to avoid mutating caller's object
   );
+
+  if (merged.tags) {
+    // merge joins arrays by index, but tags are identified by their name
+    const tags = allApis.flatMap((api) => api.tags ?? []);
+    merged.tags = [...new Map(tags.map((tag) => [tag.name, tag])).values()];
+  }
+
+  return merged;
 }
 
 function methodIsDeprecated(operation: OpenApiOperation): boolean {
-- 
2.43.0


From 885fc5273a4e62499ec7245248fe2ae61a925466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:30 +0000
Subject: [PATCH 24/90] fix: accept valid explode, servers and parameters in
 OpenAPI documents

---
 lib/digitraffic-common/src/types/openapi-schema.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/digitraffic-common/src/types/openapi-schema.ts b/lib/digitraffic-common/src/types/openapi-schema.ts
index 9b51058..3c19e7a 100644
--- a/lib/digitraffic-common/src/types/openapi-schema.ts
+++ b/lib/digitraffic-common/src/types/openapi-schema.ts
@@ -24,7 +24,7 @@ export const parameterObject = z.object({
       "deepObject",
     ])
     .optional(),
-  explode: z.string().optional(),
+  explode: z.boolean().optional(),
   allowReserved: z.boolean().optional(),
   schema: z.unknown().optional(),
   example: z.unknown().optional(),
@@ -70,8 +70,8 @@ export const openapiPathItem = z
     head: openapiOperation,
     patch: openapiOperation,
     trace: openapiOperation,
-    servers: serverObject,
-    parameters: z.array(parameterObject),
+    servers: z.array(serverObject),
+    parameters: z.array(parameterObject.or(referenceObject)),
   })
   .partial();
 
-- 
2.43.0


From 29784cfe26f71f62680fac7e34b02cd402b47eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:32 +0000
Subject: [PATCH 25/90] fix: a change of task with the same number of channels
 must start a new tracking

---
 .../src/service/paikannin-utils.ts                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
index 06f2d74..3226fcb 100644
--- a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
+++ b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
@@ -181,7 +181,7 @@ function isSameTasks(
   if (ioChannels1.length !== ioChannels2.length) {
     return false;
   }
-  const ioChannel1Strings = ioChannelsToStrings(ioChannels2);
+  const ioChannel1Strings = ioChannelsToStrings(ioChannels1);
   const ioChannel2Strings = ioChannelsToStrings(ioChannels2);
   return CommonUtils.bothArraysHasSameValues(
     ioChannel1Strings,
-- 
2.43.0


From 3ef3137d534463a8c308da8a552e010ba30bb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:32 +0000
Subject: [PATCH 26/90] fix: the previous tracking gets the heading of the
 point it is extended with

---
 .../src/service/paikannin-utils.ts                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
index 3226fcb..bf52d5d 100644
--- a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
+++ b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
@@ -498,6 +498,6 @@ export function createDbMaintenanceTracking(
     message_original_id: "none",
     finished: true,
     // This is additional metadata, not saved to db but used to update previous tracking
-    start_direction: lastEvent.heading,
+    start_direction: firstEvent.heading,
   };
 }
-- 
2.43.0


From e8f72a9b7a1292bc2690cea5784ad8cefa9cc51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:36 +0000
Subject: [PATCH 27/90] fix: portactivity: keep failed timestamps on the queue

---
 marine/portactivity/src/internal-lambdas-stack.ts     |  4 +++-
 .../src/lambda/process-queue/process-queue.ts         | 11 ++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/marine/portactivity/src/internal-lambdas-stack.ts b/marine/portactivity/src/internal-lambdas-stack.ts
index ac38b0d..46f8713 100644
--- a/marine/portactivity/src/internal-lambdas-stack.ts
+++ b/marine/portactivity/src/internal-lambdas-stack.ts
@@ -274,7 +274,9 @@ function createProcessQueueLambda(
     },
   );
 
-  processQueueLambda.addEventSource(new SqsEventSource(queue));
+  processQueueLambda.addEventSource(
+    new SqsEventSource(queue, { reportBatchItemFailures: true }),
+  );
 
   return processQueueLambda;
 }
diff --git a/marine/portactivity/src/lambda/process-queue/process-queue.ts b/marine/portactivity/src/lambda/process-queue/process-queue.ts
index 309c4d1..8b89ae1 100644
--- a/marine/portactivity/src/lambda/process-queue/process-queue.ts
+++ b/marine/portactivity/src/lambda/process-queue/process-queue.ts
@@ -26,14 +26,15 @@ export function handlerFn(): (
           [];
 
         for (const r of event.Records) {
-          const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
           const start = Date.now();
-          logger.debug({
-            method: "ProcessQueue.handler",
-            message: `processing timestamp ${JSON.stringify(partial)}`,
-          });
 
           try {
+            const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
+            logger.debug({
+              method: "ProcessQueue.handler",
+              message: `processing timestamp ${JSON.stringify(partial)}`,
+            });
+
             const timestamp = await validateTimestamp(partial, db);
 
             if (!timestamp) {
-- 
2.43.0


From 32be72837b1375a113281f8daf3ec80aa85c9294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:36 +0000
Subject: [PATCH 28/90] fix: maintenance-tracking: failed messages stay on the
 queue

---
 .../src/lambda/process-queue/process-queue.ts            | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts b/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
index f5c7bfe..49cb11e 100644
--- a/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
+++ b/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
@@ -31,7 +31,14 @@ function getRdsHolder(): RdsHolder {
 
 export const handler: (
   event: SQSEvent,
-) => Promise<PromiseSettledResult<void>[]> = handlerFn(sqsExtendedClient);
+) => Promise<PromiseSettledResult<void>[]> = async (event: SQSEvent) => {
+  const results = await handlerFn(sqsExtendedClient)(event);
+  // A message is deleted from the queue unless the invocation fails
+  if (results.some((result) => result.status === "rejected")) {
+    throw new Error("Message handling failed");
+  }
+  return results;
+};
 
 export function handlerFn(
   sqsExtendedClient: ExtendedSqsClient,
-- 
2.43.0


From e251f7ebb1831e33e0a9ec1b48e9496943489ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:27 +0000
Subject: [PATCH 29/90] fix: ship list covers four days by default

---
 .../src/lambda/get-shiplist-public/get-shiplist-public.ts  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index 09ce833..bcdbc43 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -13,6 +13,8 @@ import { getShiplist } from "../../service/shiplist.js";
 const rdsHolder = RdsHolder.create();
 const secretHolder = SecretHolder.create<ShiplistSecret>("shiplist");
 
+const DEFAULT_INTERVAL_HOURS = String(4 * 24);
+
 export interface ShiplistSecret extends GenericSecret {
   readonly auth: string;
 }
@@ -81,7 +83,10 @@ export const handler = (
         event.queryStringParameters,
         secret,
       );
-      const interval = Number.parseInt(parameters.interval ?? "4*24", 10);
+      const interval = Number.parseInt(
+        parameters.interval ?? DEFAULT_INTERVAL_HOURS,
+        10,
+      );
 
       return inDatabaseReadonly(
         async (db: DTDatabase): Promise<APIGatewayProxyResult> => {
-- 
2.43.0


From 3db6575ad8f4f0117acb541825ba1f690389720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:27 +0000
Subject: [PATCH 30/90] fix: ship names cannot end the script of the ship list

---
 .../lambda/get-shiplist-public/get-shiplist-public.ts  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index bcdbc43..bd6ba6d 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -105,6 +105,14 @@ export const handler = (
     });
 };
 
+/**
+ * JSON for embedding in a script element: "<" is escaped, so that no text in the data
+ * (e.g. a ship's name) can end the element.
+ */
+function toScriptLiteral(value: unknown): string {
+  return JSON.stringify(value).replaceAll("<", "\\u003c");
+}
+
 function getPageSource(shiplist: PublicApiTimestamp[]): string {
   return `
 <html>
@@ -237,7 +245,7 @@ function getPageSource(shiplist: PublicApiTimestamp[]): string {
 
 </body>
 <script>
-    var shiplist = ${JSON.stringify(shiplist)};
+    var shiplist = ${toScriptLiteral(shiplist)};
 
     var currentDate = new Date();
 
-- 
2.43.0


From 9cff0440df26443f692b46e9d471e010a512ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:04 +0000
Subject: [PATCH 31/90] fix: the voyage plan gateway is packaged with its
 handler

---
 marine/voyage-plan-gateway/src/public-api.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/voyage-plan-gateway/src/public-api.ts b/marine/voyage-plan-gateway/src/public-api.ts
index 0421c96..f6d9754 100644
--- a/marine/voyage-plan-gateway/src/public-api.ts
+++ b/marine/voyage-plan-gateway/src/public-api.ts
@@ -68,7 +68,7 @@ function createVtsProxyHandler(
     functionName,
     defaultLambdaConfiguration({
       functionName,
-      code: new AssetCode("dist/lambda"),
+      code: new AssetCode("dist/lambda/lambda-get-schedules"),
       handler: "lambda-get-schedules.handler",
       logGroup: logGroup,
       environment: env,
-- 
2.43.0


From 0dfeea7baf902569de508752dd2d041170d7d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 32/90] fix: an upload that could not be stored is not answered
 with OK

---
 road/data-upload/src/lambda/upload-datex2/upload-datex2.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts b/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
index 42b17ff..cf30678 100644
--- a/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
+++ b/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
@@ -14,6 +14,7 @@ export const ERRORS = {
   MISSING_BODY: "Missing body",
   INVALID_PAYLOAD: "Invalid payload",
   EMPTY_PAYLOAD: "Empty payload",
+  UPDATE_FAILED: "Update failed",
 } as const;
 
 export const StatusCodes = {
@@ -63,6 +64,11 @@ export const handler = async (
         method,
         error,
       });
+
+      return {
+        ...StatusCodes.INTERNAL_ERROR,
+        body: ERRORS.UPDATE_FAILED,
+      };
     } finally {
       logger.info({
         method,
-- 
2.43.0


From 59669db62d4919ecb79c5ac6281bf14f48aaa460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 33/90] fix: topic messages are not lost when they cannot be
 stored

---
 .../src/lambda/handle-rtti/handle-rtti.ts     | 37 +++++++++++++++----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts b/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts
index f80f3df..d545c03 100644
--- a/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts
+++ b/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts
@@ -12,14 +12,18 @@ const proxyHolder = ProxyHolder.create();
 export const handler = async (event: SQSEvent): Promise<void> => {
   const start = Date.now();
 
-  await proxyHolder.setCredentials();
-
   try {
+    await proxyHolder.setCredentials();
+
     await Promise.all(
       event.Records.map(async (record) => {
         const { messageId, body } = record;
 
-        const parsedMessage = parsePayload(body);
+        const parsedMessage = parsePayload(messageId, body);
+
+        if (!parsedMessage) {
+          return;
+        }
 
         logger.debug(
           `Parsed message ${messageId}: ${JSON.stringify(parsedMessage)}`,
@@ -34,6 +38,9 @@ export const handler = async (event: SQSEvent): Promise<void> => {
       method,
       error,
     });
+
+    // the messages were not stored, so they must stay in the queue
+    throw error;
   } finally {
     logger.info({
       method,
@@ -42,10 +49,24 @@ export const handler = async (event: SQSEvent): Promise<void> => {
   }
 };
 
-function parsePayload(body: string): UpdateObject {
-  // message comes actually from SNS, so we need to parse it
-  const message = JSON.parse(body) as SNSMessage;
-  const messageVersion = JSON.parse(message.Message);
+function parsePayload(
+  messageId: string,
+  body: string,
+): UpdateObject | undefined {
+  try {
+    // message comes actually from SNS, so we need to parse it
+    const message = JSON.parse(body) as SNSMessage;
+    const messageVersion = JSON.parse(message.Message);
+
+    return messageSchema.parse(messageVersion);
+  } catch (error) {
+    // an invalid message stays invalid, it must not fail the others
+    logger.error({
+      method,
+      message: `Invalid message ${messageId}`,
+      error,
+    });
 
-  return messageSchema.parse(messageVersion);
+    return undefined;
+  }
 }
-- 
2.43.0


From defa5f80083e92a8da5ad8c087cf641114ca87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 34/90] fix: handling new messages is tried again after a
 failure

---
 .../src/lambda/handle-new-messages/handle-new-messages.ts      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/road/data-upload/src/lambda/handle-new-messages/handle-new-messages.ts b/road/data-upload/src/lambda/handle-new-messages/handle-new-messages.ts
index bcda6d0..9899f7c 100644
--- a/road/data-upload/src/lambda/handle-new-messages/handle-new-messages.ts
+++ b/road/data-upload/src/lambda/handle-new-messages/handle-new-messages.ts
@@ -21,6 +21,9 @@ export const handler = async (): Promise<void> => {
       method,
       error,
     });
+
+    // nothing else handles the messages, so this must be tried again
+    throw error;
   } finally {
     logger.info({
       method,
-- 
2.43.0


From 32d340eb0403aa74fc1ea5a887dce86f11006ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 35/90] fix: parsing a Datex2 2.2.3 document without an end tag
 ends

---
 road/data-upload/src/service/vs-datex2-223-parser.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/road/data-upload/src/service/vs-datex2-223-parser.ts b/road/data-upload/src/service/vs-datex2-223-parser.ts
index ce21b37..7b4b599 100644
--- a/road/data-upload/src/service/vs-datex2-223-parser.ts
+++ b/road/data-upload/src/service/vs-datex2-223-parser.ts
@@ -24,6 +24,11 @@ export function parseSituations223(datex2: string): DatexFile[] {
         DATEX2_SITUATION_TAG_END,
         sitIndex + DATEX2_SITUATION_TAG_START.length,
       );
+
+      if (sitEndIndex === -1) {
+        throw new Error("Cannot find end of situation!");
+      }
+
       index = sitEndIndex;
 
       situations.push(
-- 
2.43.0


From 7a591e8b549fa76199d136455394d711231960e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:25 +0000
Subject: [PATCH 36/90] fix: variable sign messages are handled in order

---
 .../data-upload/src/service/variable-signs.ts | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/road/data-upload/src/service/variable-signs.ts b/road/data-upload/src/service/variable-signs.ts
index e70b8e7..4066b31 100644
--- a/road/data-upload/src/service/variable-signs.ts
+++ b/road/data-upload/src/service/variable-signs.ts
@@ -25,23 +25,22 @@ export async function handleVariableSignMessages(): Promise<void> {
       TYPES.VMS_DATEX2_METADATA_XML,
     ]);
 
-    await Promise.allSettled(
-      unhandled.map(async (data) => {
-        try {
-          await handleVariableSign(db, data);
-
-          await updateStatus(db, data.data_id, "PROCESSED");
-        } catch (error) {
-          logger.error({
-            method: "VariableSignsService.handleVariableSignMessages",
-            customDataId: data.data_id,
-            error,
-          });
-
-          await updateStatus(db, data.data_id, "FAILED");
-        }
-      }),
-    );
+    // one at a time and in order, the last data of a device must stay
+    for (const data of unhandled) {
+      try {
+        await handleVariableSign(db, data);
+
+        await updateStatus(db, data.data_id, "PROCESSED");
+      } catch (error) {
+        logger.error({
+          method: "VariableSignsService.handleVariableSignMessages",
+          customDataId: data.data_id,
+          error,
+        });
+
+        await updateStatus(db, data.data_id, "FAILED");
+      }
+    }
   });
 }
 
-- 
2.43.0


From 10eb871476a580b2fcf5495261465bbf5da8c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:25 +0000
Subject: [PATCH 37/90] fix: messages that could not be stored are not marked
 as processed

---
 road/data-upload/src/service/rtti.ts           | 4 ++++
 road/data-upload/src/service/variable-signs.ts | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/road/data-upload/src/service/rtti.ts b/road/data-upload/src/service/rtti.ts
index c5f6b13..fdbf7f0 100644
--- a/road/data-upload/src/service/rtti.ts
+++ b/road/data-upload/src/service/rtti.ts
@@ -111,4 +111,8 @@ async function handleRtti(db: DTDatabase, data: DataIncomingDb) {
     customUnknownCount: unknownCount,
     tookMs: Date.now() - started,
   });
+
+  if (error35Count > 0) {
+    throw new Error("Could not update RTTI situation");
+  }
 }
diff --git a/road/data-upload/src/service/variable-signs.ts b/road/data-upload/src/service/variable-signs.ts
index 4066b31..9dbe076 100644
--- a/road/data-upload/src/service/variable-signs.ts
+++ b/road/data-upload/src/service/variable-signs.ts
@@ -185,4 +185,9 @@ async function handleVariableSign(
     customUnknownCount: unknownCount,
     tookMs: Date.now() - started,
   });
+
+  const errorCount = error223Count + error35Count + error37Count;
+  if (errorCount > 0) {
+    throw new Error(`Could not update ${errorCount} datex2 files`);
+  }
 }
-- 
2.43.0


From d38cbf7934f90fd971c0093644b81dea1350648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:41 +0000
Subject: [PATCH 38/90] fix: the start of a situation without an end is stored

---
 road/data-upload/src/service/rtti-35-parser.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/data-upload/src/service/rtti-35-parser.ts b/road/data-upload/src/service/rtti-35-parser.ts
index 18fce38..ab8446a 100644
--- a/road/data-upload/src/service/rtti-35-parser.ts
+++ b/road/data-upload/src/service/rtti-35-parser.ts
@@ -70,7 +70,7 @@ function getValidityPeriod(situation: Situation): {
       if (timeSpec) {
         const overallStartTime = timeSpec["com:overallStartTime"][0];
         const overallEndTime = timeSpec["com:overallEndTime"]?.[0];
-        if (overallStartTime && overallEndTime) {
+        if (overallStartTime) {
           return { startTime: overallStartTime, endTime: overallEndTime };
         }
       }
-- 
2.43.0


From 065cb1ac7f342215a55f6967550cbb724720b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:41 +0000
Subject: [PATCH 39/90] fix: published situations are well-formed documents

---
 .../src/service/mqtt-sending-service.ts         | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/road/data-upload/src/service/mqtt-sending-service.ts b/road/data-upload/src/service/mqtt-sending-service.ts
index 3178329..8e52673 100644
--- a/road/data-upload/src/service/mqtt-sending-service.ts
+++ b/road/data-upload/src/service/mqtt-sending-service.ts
@@ -78,9 +78,18 @@ export async function sendMqttUpdates(
   }
 }
 
-function createMessage(datexSituation: string): string {
-  return PAYLOAD_TEMPLATE.replace(
-    "PUBLICATION_TIME",
+function createMessage(datex2: string): string {
+  // functions, as the situation may contain $-patterns
+  return PAYLOAD_TEMPLATE.replace("PUBLICATION_TIME", () =>
     new Date().toISOString(),
-  ).replace("SITUATION", datexSituation);
+  ).replace("SITUATION", () => getSituation(datex2));
+}
+
+/**
+ * The stored message is a whole document, the payload has the situation only
+ */
+function getSituation(datex2: string): string {
+  return (
+    /<sit:situation\s[\s\S]*?<\/sit:situation\s*>/.exec(datex2)?.[0] ?? datex2
+  );
 }
-- 
2.43.0


From 05ff400c9c946dc6f843909a85ebc2db52232f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:41 +0000
Subject: [PATCH 40/90] fix: situations that could not be published stay in the
 queue

---
 road/data-upload/src/lambda/send-mqtt/send-mqtt.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts b/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts
index 630b5e4..9f494a6 100644
--- a/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts
+++ b/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts
@@ -45,5 +45,8 @@ export const handler = async (event: SQSEvent): Promise<void> => {
       method,
       error,
     });
+
+    // nothing else publishes the situations, so this must be tried again
+    throw error;
   }
 };
-- 
2.43.0


From edf181a4cb043d76cd591396d8c936c0a2b89cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:19 +0000
Subject: [PATCH 41/90] fix: reading the topic triggers the handling of its
 messages

---
 road/data-upload/src/data-upload-stack.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/road/data-upload/src/data-upload-stack.ts b/road/data-upload/src/data-upload-stack.ts
index 22b6a3c..c2f9c4d 100644
--- a/road/data-upload/src/data-upload-stack.ts
+++ b/road/data-upload/src/data-upload-stack.ts
@@ -28,7 +28,7 @@ export class DataUploadStack extends DigitrafficStack {
     const mqttQueue = this.createSqsQueue("Mqtt");
 
     if (configuration.rttiTopicArn) {
-      this.createRttiSqsReader(configuration.rttiTopicArn);
+      this.createRttiSqsReader(configuration.rttiTopicArn, dataQueue);
     }
 
     createInternalLambdas(
@@ -41,8 +41,9 @@ export class DataUploadStack extends DigitrafficStack {
     new IntegrationApi(this, dataQueue);
   }
 
-  createRttiSqsReader(topicArn: string): void {
+  createRttiSqsReader(topicArn: string, dataQueue: Queue): void {
     const lambda = FunctionBuilder.create(this, "handle-rtti")
+      .withEnvironment({ QUEUE_URL: dataQueue.queueUrl })
       .withMemorySize(128)
       .withReservedConcurrentExecutions(3)
       .withTimeout(Duration.seconds(10))
@@ -60,6 +61,7 @@ export class DataUploadStack extends DigitrafficStack {
 
     topic.addSubscription(new SqsSubscription(queue));
     queue.grantConsumeMessages(lambda);
+    dataQueue.grantSendMessages(lambda);
     lambda.addEventSource(
       new SqsEventSource(queue, {
         batchSize: 20,
-- 
2.43.0


From ad375250419f98fa179b9ebda2519f218b463727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:04 +0000
Subject: [PATCH 42/90] fix: texts of the data are not taken for replacement
 patterns

---
 road/variable-signs/src/service/variable-signs.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/road/variable-signs/src/service/variable-signs.ts b/road/variable-signs/src/service/variable-signs.ts
index 4b6c586..f0c0610 100644
--- a/road/variable-signs/src/service/variable-signs.ts
+++ b/road/variable-signs/src/service/variable-signs.ts
@@ -188,7 +188,7 @@ function createVmsTablePublication35(
   return DATEX2_VMS_TABLE_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("CONTROLLERS", controllers);
+  ).replace("CONTROLLERS", () => controllers);
 }
 
 function createVmsPublication35(
@@ -202,7 +202,7 @@ function createVmsPublication35(
   return DATEX2_VMS_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("STATUSES", statuses);
+  ).replace("STATUSES", () => statuses);
 }
 
 function createSituationPublication35(
@@ -216,7 +216,7 @@ function createSituationPublication35(
   return DATEX2_SITUATION_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
 
 function createD2LogicalModel223(
@@ -228,7 +228,7 @@ function createD2LogicalModel223(
   return DATEX2_223_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
 
 // Extra namespace declarations added in Datex II 3.7
@@ -308,7 +308,7 @@ function createVmsTablePublication37(
   return DATEX2_VMS_TABLE_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("CONTROLLERS", controllers);
+  ).replace("CONTROLLERS", () => controllers);
 }
 
 function createVmsPublication37(
@@ -322,7 +322,7 @@ function createVmsPublication37(
   return DATEX2_VMS_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("STATUSES", statuses);
+  ).replace("STATUSES", () => statuses);
 }
 
 function createSituationPublication37(
@@ -336,5 +336,5 @@ function createSituationPublication37(
   return DATEX2_SITUATION_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
-- 
2.43.0


From 91765a128d7fc6d96e1547aa82bb0585b1f97e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:04 +0000
Subject: [PATCH 43/90] fix: a situation without end fails instead of being
 searched for ever

---
 road/variable-signs/src/service/datex2-update-service.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/road/variable-signs/src/service/datex2-update-service.ts b/road/variable-signs/src/service/datex2-update-service.ts
index 639ec73..86b2d6e 100644
--- a/road/variable-signs/src/service/datex2-update-service.ts
+++ b/road/variable-signs/src/service/datex2-update-service.ts
@@ -65,6 +65,11 @@ export function parseSituations(datex2: string): Situation[] {
         DATEX2_SITUATION_TAG_END,
         sitIndex + DATEX2_SITUATION_TAG_START.length,
       );
+
+      if (sitEndIndex === -1) {
+        throw new Error("situation without end");
+      }
+
       index = sitEndIndex;
 
       situations.push(
-- 
2.43.0


From dcfe49ce9ea648fa9e5881fd3563bedd50bf34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:04 +0000
Subject: [PATCH 44/90] fix: invalid JSON is answered as a bad request

---
 .../src/lambda/update-json-data/update-json-data.ts       | 8 +++++++-
 .../lambda/update-json-metadata/update-json-metadata.ts   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/road/variable-signs/src/lambda/update-json-data/update-json-data.ts b/road/variable-signs/src/lambda/update-json-data/update-json-data.ts
index 883c2c6..8057030 100644
--- a/road/variable-signs/src/lambda/update-json-data/update-json-data.ts
+++ b/road/variable-signs/src/lambda/update-json-data/update-json-data.ts
@@ -13,7 +13,13 @@ export const handler = (event: BodyEvent): Promise<StatusCodeValue> => {
   const start = Date.now();
 
   if (jsonData) {
-    const tilatiedot = JSON.parse(jsonData) as unknown as TloikTilatiedot;
+    let tilatiedot: TloikTilatiedot;
+
+    try {
+      tilatiedot = JSON.parse(jsonData) as TloikTilatiedot;
+    } catch {
+      return Promise.resolve(StatusCodeValues.BAD_REQUEST);
+    }
 
     return proxyHolder
       .setCredentials()
diff --git a/road/variable-signs/src/lambda/update-json-metadata/update-json-metadata.ts b/road/variable-signs/src/lambda/update-json-metadata/update-json-metadata.ts
index 5024c9d..184a9bd 100644
--- a/road/variable-signs/src/lambda/update-json-metadata/update-json-metadata.ts
+++ b/road/variable-signs/src/lambda/update-json-metadata/update-json-metadata.ts
@@ -13,7 +13,13 @@ export const handler = (event: BodyEvent): Promise<StatusCodeValue> => {
   const start = Date.now();
 
   if (jsonMetadata) {
-    const metatiedot = JSON.parse(jsonMetadata) as unknown as TloikMetatiedot;
+    let metatiedot: TloikMetatiedot;
+
+    try {
+      metatiedot = JSON.parse(jsonMetadata) as TloikMetatiedot;
+    } catch {
+      return Promise.resolve(StatusCodeValues.BAD_REQUEST);
+    }
 
     return proxyHolder
       .setCredentials()
-- 
2.43.0


From 25fdb60f61b9f066c32f6b3350ece0c797d2c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:52 +0000
Subject: [PATCH 45/90] fix: camera credentials are read whatever the case of
 the header, and passwords may contain colons

---
 .../src/lambda/authorizer/authorizer.ts       | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/marine/marinecam/src/lambda/authorizer/authorizer.ts b/marine/marinecam/src/lambda/authorizer/authorizer.ts
index 54a5e79..d0665fa 100644
--- a/marine/marinecam/src/lambda/authorizer/authorizer.ts
+++ b/marine/marinecam/src/lambda/authorizer/authorizer.ts
@@ -40,23 +40,27 @@ export const handler = async (
 function parseAuthentication(
   headers: APIGatewayRequestAuthorizerEventHeaders | null,
 ): [string, string] | undefined {
-  // biome-ignore lint/complexity/useLiteralKeys: Indexed access
-  if (!headers?.["authorization"]) {
+  // header names are case-insensitive and come as the client sent them
+  const authorization = Object.entries(headers ?? {}).find(
+    ([name]) => name.toLowerCase() === "authorization",
+  )?.[1];
+  if (!authorization) {
     return undefined;
   } else {
-    // biome-ignore lint/complexity/useLiteralKeys: Indexed access
-    const encodedCreds = headers["authorization"].split(" ")[1];
+    const encodedCreds = authorization.split(" ")[1];
     if (!encodedCreds) {
       return undefined;
     }
-    const plainCreds = Buffer.from(encodedCreds, "base64")
-      .toString()
-      .split(":");
+    const plainCreds = Buffer.from(encodedCreds, "base64").toString();
+    // only the username can't contain a colon
+    const separator = plainCreds.indexOf(":");
+    const username = plainCreds.slice(0, Math.max(separator, 0));
+    const password = plainCreds.slice(separator + 1);
 
-    if (plainCreds.length !== 2 || !plainCreds[0] || !plainCreds[1]) {
+    if (!username || !password) {
       return undefined;
     }
-    return [plainCreds[0], plainCreds[1]];
+    return [username, password];
   }
 }
 
-- 
2.43.0


From 955eddda989214fd2d7186d596e3d2d48ecfdaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:52 +0000
Subject: [PATCH 46/90] fix: the camera authorizer's cached policy is for the
 path it was made for

---
 marine/marinecam/src/private-api.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/marinecam/src/private-api.ts b/marine/marinecam/src/private-api.ts
index 23b0001..db2e86b 100644
--- a/marine/marinecam/src/private-api.ts
+++ b/marine/marinecam/src/private-api.ts
@@ -406,7 +406,11 @@ export class PrivateApi {
 
     return new RequestAuthorizer(this.stack, "images-authorizer", {
       handler: authFunction,
-      identitySources: [IdentitySource.header("Authorization")],
+      // policies are cached by these, and a policy is for one path only
+      identitySources: [
+        IdentitySource.header("Authorization"),
+        IdentitySource.context("path"),
+      ],
     });
   }
 }
-- 
2.43.0


From a48e6d1bb5749b0d4af6c5cee8060cb5f02425f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:52 +0000
Subject: [PATCH 47/90] fix: the camera authorizer answers when a new password
 is required or the login throws

---
 .../marinecam/src/lambda/authorizer/cognito_backend.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marine/marinecam/src/lambda/authorizer/cognito_backend.ts b/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
index a3c865b..5b94a9e 100644
--- a/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
+++ b/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
@@ -53,7 +53,7 @@ export function loginUser(
         },
 
         newPasswordRequired: (userAttributes: object) => {
-          return changeUserPassword(cognitoUser, password, userAttributes);
+          changeUserPassword(cognitoUser, password, userAttributes, resolve);
         },
       });
     } catch (error) {
@@ -62,6 +62,8 @@ export function loginUser(
         message: "authenticateUser failed",
         customDetails: JSON.stringify(error),
       });
+
+      resolve(undefined);
     }
   });
 }
@@ -70,14 +72,16 @@ function changeUserPassword(
   cognitoUser: CognitoUser,
   newPassword: string,
   userAttributes: object,
+  resolve: (session: CognitoUserSession | undefined) => void,
 ): void {
   cognitoUser.completeNewPasswordChallenge(newPassword, userAttributes, {
     onSuccess: (result) => {
       logger.info({
         method: "CognitoBackend.changeUserPassword",
         message: "success",
-        customDetails: JSON.stringify(result),
       });
+
+      resolve(result);
     },
     onFailure: (result) => {
       logger.info({
@@ -85,6 +89,8 @@ function changeUserPassword(
         message: "failure",
         customDetails: JSON.stringify(result),
       });
+
+      resolve(undefined);
     },
   });
 }
-- 
2.43.0


From e8c691e734cfbe304e7e6dcf50a1055576377c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:52 +0000
Subject: [PATCH 48/90] fix: cameras are listed for the groups of the
 authorizer, as a lambda response

---
 .../src/lambda/list-cameras/list-cameras.ts   | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/marine/marinecam/src/lambda/list-cameras/list-cameras.ts b/marine/marinecam/src/lambda/list-cameras/list-cameras.ts
index ba0eb8c..c5a737c 100644
--- a/marine/marinecam/src/lambda/list-cameras/list-cameras.ts
+++ b/marine/marinecam/src/lambda/list-cameras/list-cameras.ts
@@ -1,35 +1,39 @@
+import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
 import { RdsHolder } from "@digitraffic/common/dist/aws/runtime/secrets/rds-holder";
+import { LambdaResponse } from "@digitraffic/common/dist/aws/types/lambda-response";
+import { logException } from "@digitraffic/common/dist/utils/logging";
 
 import type { Camera } from "../../model/camera.js";
 import * as MetadataService from "../../service/metadata.js";
 
 const rdsHolder = RdsHolder.create();
 
-const GROUP_SEPARATOR = ",";
-
 interface ListCamerasEvent {
-  groups: string;
+  "authorizer.groups"?: string;
 }
 
-export function handler(event: ListCamerasEvent): Promise<Camera[]> {
-  const usersGroups = getUserGroups(event.groups);
+export function handler(event: ListCamerasEvent): Promise<LambdaResponse> {
+  const usersGroups = getUserGroups(event["authorizer.groups"]);
 
   if (usersGroups.length === 0) {
-    return Promise.resolve([] as Camera[]);
+    return Promise.resolve(LambdaResponse.okJson([] as Camera[]));
   }
 
   return rdsHolder
     .setCredentials()
-    .then(() => MetadataService.listAllCameras(usersGroups));
+    .then(() => MetadataService.listAllCameras(usersGroups))
+    .then((cameras: Camera[]) => LambdaResponse.okJson(cameras))
+    .catch((e: unknown) => {
+      logException(logger, e as Error);
+      return LambdaResponse.internalError();
+    });
 }
 
-// eventGroups is in form [group1, group2...]
-function getUserGroups(eventGroups: string): string[] {
+// the authorizer gives the groups as a json array
+function getUserGroups(eventGroups: string | undefined): string[] {
   if (!eventGroups) {
     return [];
   }
 
-  const withoutBraces = eventGroups.substring(1, eventGroups.length - 1);
-
-  return withoutBraces.split(GROUP_SEPARATOR).map((s) => s.trim());
+  return JSON.parse(eventGroups) as string[];
 }
-- 
2.43.0


From 1e45ecafd4208a3de70e07087a04894623bc3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:52 +0000
Subject: [PATCH 49/90] fix: only stored camera images are marked as updated,
 also when disconnecting fails

---
 marine/marinecam/src/service/image-fetcher.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/marine/marinecam/src/service/image-fetcher.ts b/marine/marinecam/src/service/image-fetcher.ts
index 705869e..b112842 100644
--- a/marine/marinecam/src/service/image-fetcher.ts
+++ b/marine/marinecam/src/service/image-fetcher.ts
@@ -49,8 +49,8 @@ async function updateAllImages(
             message: `empty picture from camera ${cameraId}`,
           });
         } else {
+          await ImageStore.storeImage(cameraId, image, bucketName);
           updatedCameras.push(cameraId);
-          return ImageStore.storeImage(cameraId, image, bucketName);
         }
 
         return Promise.resolve();
@@ -58,9 +58,12 @@ async function updateAllImages(
     ),
   );
 
-  await session.disconnect();
-
-  return MetadataService.updateMetadataUpdated(updatedCameras, new Date());
+  try {
+    await session.disconnect();
+  } finally {
+    // the images have been stored in any case
+    await MetadataService.updateMetadataUpdated(updatedCameras, new Date());
+  }
 }
 
 async function loginToCameraServer(
-- 
2.43.0


From 8c4b6a0159d291be57c181e7a41d71d17a348c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:52 +0000
Subject: [PATCH 50/90] fix: an error page of the video server is not taken for
 an image

---
 marine/marinecam/src/service/session.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marine/marinecam/src/service/session.ts b/marine/marinecam/src/service/session.ts
index 9257f65..1e7e124 100644
--- a/marine/marinecam/src/service/session.ts
+++ b/marine/marinecam/src/service/session.ts
@@ -205,6 +205,10 @@ export class Session {
 
     const response = await this.post(streamUrl, "");
 
+    if (response.statusCode !== 200) {
+      throw Error(`getFrameFromStream failed ${response.statusCode}`);
+    }
+
     // format is uuid(16) timestamp(8) datasize(4) headersize(2) headerExtension(2)...
     const buffer = Buffer.from(await response.body.arrayBuffer());
     const dataSize = buffer.readUInt32LE(16 + 8 + 4);
-- 
2.43.0


From aa8a08170f96f38ebeb306128685942a369523b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:46 +0000
Subject: [PATCH 51/90] fix: pilotages are read whole, and a failing Pilotweb
 is noticed

---
 marine/portactivity/src/api/pilotweb.ts | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/api/pilotweb.ts b/marine/portactivity/src/api/pilotweb.ts
index 484a8c3..be828fd 100644
--- a/marine/portactivity/src/api/pilotweb.ts
+++ b/marine/portactivity/src/api/pilotweb.ts
@@ -18,6 +18,9 @@ export function getMessages(host: string, authHeader: string): Promise<string> {
           },
         },
         (response) => {
+          // characters may be split between chunks
+          response.setEncoding("utf8");
+
           //another chunk of data has been received, so append it to `str`
           response.on("data", (chunk) => {
             content += chunk;
@@ -25,7 +28,15 @@ export function getMessages(host: string, authHeader: string): Promise<string> {
 
           //the whole response has been received, so we just print it out here
           response.on("end", () => {
-            resolve(content);
+            if (response.statusCode === 200) {
+              resolve(content);
+            } else {
+              reject(
+                new Error(
+                  `Pilotweb answered with status ${response.statusCode}`,
+                ),
+              );
+            }
           });
 
           response.on("error", (error) => {
@@ -33,6 +44,9 @@ export function getMessages(host: string, authHeader: string): Promise<string> {
           });
         },
       )
+      .on("error", (error) => {
+        reject(error);
+      })
       .end();
   });
 }
-- 
2.43.0


From b633876ae7ff63092bd7602100366368a8728479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:46 +0000
Subject: [PATCH 52/90] fix: pilotages and their timestamps are updated in one
 transaction

---
 marine/portactivity/src/dao/pilotages.ts    |  8 +++++---
 marine/portactivity/src/service/pilotweb.ts | 21 ++++++++++-----------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/marine/portactivity/src/dao/pilotages.ts b/marine/portactivity/src/dao/pilotages.ts
index a570408..2af0947 100644
--- a/marine/portactivity/src/dao/pilotages.ts
+++ b/marine/portactivity/src/dao/pilotages.ts
@@ -117,7 +117,9 @@ export async function findPortCallId(
   return undefined;
 }
 
-export async function getTimestamps(db: DTDatabase): Promise<TimestampMap> {
+export async function getTimestamps(
+  db: DTDatabase | DTTransaction,
+): Promise<TimestampMap> {
   const timestamps = await db.manyOrNone<DbPilotageTimestamp>(
     GET_ACTIVE_PILOTAGE_TIMESTAMPS_PS,
   );
@@ -131,7 +133,7 @@ export async function getTimestamps(db: DTDatabase): Promise<TimestampMap> {
 }
 
 export function updatePilotages(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   pilotages: Pilotage[],
 ): Promise<void> {
   if (pilotages.length > 0) {
@@ -163,7 +165,7 @@ export function updatePilotages(
 }
 
 export function deletePilotages(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   pilotageIds: number[],
 ): Promise<number[]> {
   if (pilotageIds.length > 0) {
diff --git a/marine/portactivity/src/service/pilotweb.ts b/marine/portactivity/src/service/pilotweb.ts
index ecbb70d..4cecf80 100644
--- a/marine/portactivity/src/service/pilotweb.ts
+++ b/marine/portactivity/src/service/pilotweb.ts
@@ -1,9 +1,6 @@
 import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
-import type {
-  DTDatabase,
-  DTTransaction,
-} from "@digitraffic/common/dist/database/database";
-import { inDatabase } from "@digitraffic/common/dist/database/database";
+import type { DTTransaction } from "@digitraffic/common/dist/database/database";
+import { inTransaction } from "@digitraffic/common/dist/database/database";
 import * as PilotwebAPI from "../api/pilotweb.js";
 import * as PilotagesDAO from "../dao/pilotages.js";
 import * as TimestampDAO from "../dao/timestamps.js";
@@ -25,7 +22,9 @@ export async function getMessagesFromPilotweb(
     customPilotagesReceivedCount: pilotages.length,
   });
 
-  return inDatabase(async (db: DTDatabase) => {
+  // in a single transaction: pilotages are not kept as handled, if their
+  // timestamps are lost
+  return inTransaction(async (db: DTTransaction) => {
     const idMap = await PilotagesDAO.getTimestamps(db);
     const pilotageIds = await removeMissingPilotages(db, idMap, pilotages);
     const updated = await updateAllPilotages(db, idMap, pilotages);
@@ -46,7 +45,7 @@ export async function getMessagesFromPilotweb(
 }
 
 async function removeTimestamps(
-  db: DTDatabase,
+  db: DTTransaction,
   pilotageIds: number[],
 ): Promise<void> {
   if (pilotageIds.length > 0) {
@@ -65,7 +64,7 @@ async function removeTimestamps(
 }
 
 async function updateAllPilotages(
-  db: DTDatabase,
+  db: DTTransaction,
   idMap: PilotagesDAO.TimestampMap,
   pilotages: Pilotage[],
 ): Promise<Pilotage[]> {
@@ -82,7 +81,7 @@ async function updateAllPilotages(
 }
 
 async function removeMissingPilotages(
-  db: DTDatabase,
+  db: DTTransaction,
   idMap: PilotagesDAO.TimestampMap,
   pilotages: Pilotage[],
 ): Promise<number[]> {
@@ -99,7 +98,7 @@ async function removeMissingPilotages(
 }
 
 async function convertUpdatedTimestamps(
-  db: DTDatabase,
+  db: DTTransaction,
   newAndUpdated: Pilotage[],
 ): Promise<ApiTimestamp[]> {
   // Use db.tx() to handle multiple database queries properly
@@ -145,7 +144,7 @@ async function convertUpdatedTimestamps(
 }
 
 function getPortCallId(
-  db: DTDatabase | DTTransaction,
+  db: DTTransaction,
   p: Pilotage,
   location: Location,
 ): Promise<number | undefined> {
-- 
2.43.0


From 71d7b17cdd2f15aec8f2685b062857473b9a6e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:46 +0000
Subject: [PATCH 53/90] fix: schedules without any vessels are not an error

---
 marine/portactivity/src/api/schedules.ts     | 2 +-
 marine/portactivity/src/service/schedules.ts | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/marine/portactivity/src/api/schedules.ts b/marine/portactivity/src/api/schedules.ts
index 7ecbe85..2b12f98 100644
--- a/marine/portactivity/src/api/schedules.ts
+++ b/marine/portactivity/src/api/schedules.ts
@@ -84,6 +84,6 @@ export interface Schedule {
 
 export interface SchedulesResponse {
   readonly schedules: {
-    readonly schedule: Schedule[];
+    readonly schedule?: Schedule[];
   };
 }
diff --git a/marine/portactivity/src/service/schedules.ts b/marine/portactivity/src/service/schedules.ts
index 92b2866..6db55b8 100644
--- a/marine/portactivity/src/service/schedules.ts
+++ b/marine/portactivity/src/service/schedules.ts
@@ -65,7 +65,8 @@ export class SchedulesService {
     resp: SchedulesResponse,
     calculated: boolean,
   ): ApiTimestamp[] {
-    return resp.schedules.schedule.flatMap((s) => {
+    // a document without schedules has no schedule elements
+    return (resp.schedules.schedule ?? []).flatMap((s) => {
       const timestamps: ApiTimestamp[] = [];
       const tt = s.timetable[0];
       if (!tt?.destination) {
-- 
2.43.0


From c8f8f44246f6f6cb7eb1310e9a1b49c0635d8dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:13 +0000
Subject: [PATCH 54/90] fix: connections are given back also when a query fails

---
 rail/rami/src/util/database.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rail/rami/src/util/database.ts b/rail/rami/src/util/database.ts
index 6ab3d08..03cd437 100644
--- a/rail/rami/src/util/database.ts
+++ b/rail/rami/src/util/database.ts
@@ -39,8 +39,8 @@ export async function inTransaction(
       customEvent: "transaction_started",
     });
 
-    await conn.beginTransaction();
     try {
+      await conn.beginTransaction();
       await fn(conn);
       await conn.commit();
 
@@ -80,9 +80,11 @@ export async function inDatabase<T>(
   fn: (conn: Connection) => Promise<T>,
 ): Promise<T> {
   const conn = await pool.getConnection();
-  const result = await fn(conn);
-  conn.release();
-  return result;
+  try {
+    return await fn(conn);
+  } finally {
+    conn.release();
+  }
 }
 
 export async function getOpts(): Promise<MysqlOpts> {
-- 
2.43.0


From 65978cde1e859eaa0fad4c0456cb47b61b5f06f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:13 +0000
Subject: [PATCH 55/90] fix: a deadlock retries the whole transaction of
 unknown delays and tracks

---
 rail/rami/src/dao/udot.ts                     | 13 +++++++++-
 rail/rami/src/service/process-udot-message.ts | 24 +++++++++++++++++--
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/rail/rami/src/dao/udot.ts b/rail/rami/src/dao/udot.ts
index 17dacdb..3b6d730 100644
--- a/rail/rami/src/dao/udot.ts
+++ b/rail/rami/src/dao/udot.ts
@@ -97,6 +97,13 @@ export async function insertOrUpdate(
   }
 }
 
+/**
+ * MySQL rolls back the whole transaction of the victim of a deadlock.
+ */
+export function isDeadlock(error: unknown): boolean {
+  return (error as { code?: string } | undefined)?.code === "ER_LOCK_DEADLOCK";
+}
+
 async function executeWithRetry<T extends QueryResult>(
   conn: Connection,
   sql: string,
@@ -113,12 +120,16 @@ async function executeWithRetry<T extends QueryResult>(
         ...getTraceFields(),
         method: "UdotDao.executeWithRetry",
         message: `Query failed on attempt ${i + 1} of ${retries}.`,
-        customWillRetry: i < retries - 1,
+        customWillRetry: i < retries - 1 && !isDeadlock(err),
         customTrainNumber: values.trainNumber,
         customTrainDepartureDate: values.trainDepartureDate,
         customAttapId: values.attapId,
         error: err,
       });
+      if (isDeadlock(err)) {
+        // the whole transaction has been rolled back, so it must be retried as a whole
+        throw err;
+      }
       if (i < retries - 1) {
         // Wait only if we will retry again
         await new Promise((resolve) => setTimeout(resolve, 50));
diff --git a/rail/rami/src/service/process-udot-message.ts b/rail/rami/src/service/process-udot-message.ts
index 21fbf22..b236656 100644
--- a/rail/rami/src/service/process-udot-message.ts
+++ b/rail/rami/src/service/process-udot-message.ts
@@ -2,7 +2,7 @@ import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
 import type { Connection } from "mysql2/promise";
 import type { TimeTableRow } from "../dao/time_table_row.js";
 import { findTimeTableRows } from "../dao/time_table_row.js";
-import { insertOrUpdate } from "../dao/udot.js";
+import { insertOrUpdate, isDeadlock } from "../dao/udot.js";
 import type {
   UnknownDelayOrTrack,
   UnknownDelayOrTrackMessage,
@@ -35,7 +35,10 @@ export async function processUdotMessage(
       return Promise.resolve();
     }
 
-    await inTransaction(async (conn: Connection): Promise<void> => {
+    await inTransactionWithRetry(async (conn: Connection): Promise<void> => {
+      foundCount = 0;
+      notFoundCount = 0;
+
       for (const datarow of message.data) {
         const attapId = findAttapId(rows, datarow);
 
@@ -69,6 +72,23 @@ export async function processUdotMessage(
   }
 }
 
+/** Runs the whole transaction again, if it was rolled back because of a deadlock. */
+async function inTransactionWithRetry(
+  fn: (conn: Connection) => Promise<void>,
+  retries: number = 3,
+): Promise<void> {
+  for (let i = 1; ; i++) {
+    try {
+      return await inTransaction(fn);
+    } catch (error) {
+      if (i >= retries || !isDeadlock(error)) {
+        throw error;
+      }
+      await new Promise((resolve) => setTimeout(resolve, 50));
+    }
+  }
+}
+
 function findAttapId(
   rows: TimeTableRow[],
   datarow: UnknownDelayOrTrack,
-- 
2.43.0


From 0de3a5e8ecf18f5942d2833fdd1291492a445c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:13 +0000
Subject: [PATCH 56/90] fix: stop monitoring messages that fail are left in the
 queue

---
 rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts b/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
index cd01bbd..e4a5f7f 100644
--- a/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
+++ b/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
@@ -69,6 +69,8 @@ export function handlerFn(): (
             return Promise.resolve();
           } catch (error) {
             logException(logger, error);
+            // leave the message in the queue to be retried
+            throw error;
           }
         }),
       );
-- 
2.43.0


From 88711a2155d1b9aa34ad740d709e59011015a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:13 +0000
Subject: [PATCH 57/90] fix: passenger information messages that cannot be
 parsed are sent to the dlq

---
 .../lambda/process-rosm-queue/process-rosm-queue.ts  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts b/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts
index 79d2ab8..a12ea34 100644
--- a/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts
+++ b/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts
@@ -37,6 +37,18 @@ export function handlerFn(): (
 
             return Promise.reject(error);
           }
+        } else {
+          logger.error({
+            method: "RAMI-ProcessRosmQueue.handler",
+            message: "Could not parse Rosm message",
+          });
+
+          // send invalid message and error report to dlq
+          await sendDlq({
+            messageType: "ROSM",
+            errors: "could not parse ROSM",
+            message: recordBody,
+          });
         }
         logger.info({
           method: "RAMI-ProcessRosmQueue.handler",
-- 
2.43.0


From 77f3a7bcefb2d5e5420821119e159bbae255a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:13 +0000
Subject: [PATCH 58/90] fix: nullable fields of scheduled messages and audio
 files are accepted

---
 rail/rami/src/model/zod-schema/scheduled-message.ts | 3 ++-
 rail/rami/src/service/process-rosm-message.ts       | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/rail/rami/src/model/zod-schema/scheduled-message.ts b/rail/rami/src/model/zod-schema/scheduled-message.ts
index e00a89b..c91d74f 100644
--- a/rail/rami/src/model/zod-schema/scheduled-message.ts
+++ b/rail/rami/src/model/zod-schema/scheduled-message.ts
@@ -221,7 +221,7 @@ export const onGroundRecipient = z
               .describe(
                 "**This refers to code external to Moova**. It is retrieved by invoking the SVCPLN-NetworkCode service",
               ),
-            nameLong: z.string().optional(),
+            nameLong: z.string().nullable().optional(),
           })
           .describe("point where to deliver the scheduled message"),
       )
@@ -232,6 +232,7 @@ export const onGroundRecipient = z
   .describe(
     "scheduled message to delivery at specified _deliveryPoints_. This part is present if the scheduled message must be delivered on channel ONGROUND",
   )
+  .nullable()
   .optional();
 
 export const scheduledMessage = z
diff --git a/rail/rami/src/service/process-rosm-message.ts b/rail/rami/src/service/process-rosm-message.ts
index f31ebbd..1802bc9 100644
--- a/rail/rami/src/service/process-rosm-message.ts
+++ b/rail/rami/src/service/process-rosm-message.ts
@@ -144,7 +144,7 @@ function parseMonitoredJourneyScheduledMessageAudio(
 function parseScheduledMessageAudio(
   audioMessage: RamiScheduledMessageAudio,
 ): DtAudioContent {
-  const audioTexts = audioMessage.audioText as TextContent[];
+  const audioTexts = audioMessage.audioText as TextContent[] | null | undefined;
   return {
     textFi: getTextInLanguage(audioTexts, LanguageCodes.FI),
     textSv: getTextInLanguage(audioTexts, LanguageCodes.SV),
@@ -225,10 +225,10 @@ function parseScheduledMessageVideo(
 }
 
 function getTextInLanguage(
-  texts: TextContent[],
+  texts: TextContent[] | null | undefined,
   languageCode: LanguageCode,
 ): string | undefined {
-  const textContent = texts.find((text) => text.language === languageCode);
+  const textContent = texts?.find((text) => text.language === languageCode);
   return (
     textContent?.text?.trim() ??
     textContent?.videoText?.trim() ??
-- 
2.43.0


From f5fe6be7641c3140aed261ef3efa58945825eb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:13 +0000
Subject: [PATCH 59/90] fix: dead letters are stored as valid JSON, and failed
 uploads are retried

---
 .../src/lambda/process-dlq/process-dlq.ts     | 41 ++++++++++++++++---
 rail/rami/src/util/s3.ts                      |  5 ++-
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/rail/rami/src/lambda/process-dlq/process-dlq.ts b/rail/rami/src/lambda/process-dlq/process-dlq.ts
index 8caafd5..6056fc1 100644
--- a/rail/rami/src/lambda/process-dlq/process-dlq.ts
+++ b/rail/rami/src/lambda/process-dlq/process-dlq.ts
@@ -24,10 +24,11 @@ export const handler = async (event: DlqEvent): Promise<void> => {
     logger.debug(`event ${JSON.stringify(e)}`);
 
     try {
-      const dlqMessage = JSON.parse(e.body) as DlqMessage;
-      const body = `[{"errors":"${dlqMessage.errors}"}, ${JSON.stringify(
+      const dlqMessage = parseDlqMessage(e.body);
+      const body = JSON.stringify([
+        { errors: dlqMessage.errors },
         dlqMessage.message,
-      )}]`;
+      ]);
       const folder = `${dlqMessage.messageType}/${new Date()
         .toISOString()
         .substring(0, 10)}`;
@@ -39,9 +40,39 @@ export const handler = async (event: DlqEvent): Promise<void> => {
     } catch (error) {
       logException(logger, error);
 
-      return Promise.resolve();
+      return Promise.reject(error);
     }
   });
 
-  await Promise.allSettled(uploads);
+  const failed = (await Promise.allSettled(uploads)).filter(
+    (result) => result.status === "rejected",
+  );
+
+  // leave the messages in the queue to be retried
+  if (failed.length > 0) {
+    throw new Error(`${failed.length} uploads failed`);
+  }
 };
+
+/**
+ * Messages that were moved to the dlq by SQS are not DlqMessages, but the original messages as such.
+ */
+function parseDlqMessage(body: string): DlqMessage {
+  try {
+    const message = JSON.parse(body) as Partial<DlqMessage> | null;
+    if (message?.messageType && message.message !== undefined) {
+      return {
+        messageType: message.messageType,
+        message: message.message,
+        errors: message.errors ?? "",
+      };
+    }
+  } catch (error) {
+    logException(logger, error);
+  }
+  return {
+    messageType: "unknown",
+    message: body,
+    errors: "message could not be processed",
+  };
+}
diff --git a/rail/rami/src/util/s3.ts b/rail/rami/src/util/s3.ts
index ba1af78..86328bf 100644
--- a/rail/rami/src/util/s3.ts
+++ b/rail/rami/src/util/s3.ts
@@ -17,11 +17,12 @@ export async function uploadToS3(
     });
     try {
       await doUpload(s3, bucketName, body, objectName);
-    } catch (_error2) {
+    } catch (error) {
       logger.error({
         method: "RAMI-ProcessDLQ.uploadToS3",
-        message: `upload failed, retrying upload to bucket ${bucketName}`,
+        message: `upload failed to bucket ${bucketName}`,
       });
+      throw error;
     }
   }
 }
-- 
2.43.0


From 0f694c7497a476c66f95a78fa2ae0d686bd069de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:13 +0000
Subject: [PATCH 60/90] fix: the delivery time of audio messages is published

---
 rail/rami/src/dao/message.ts         | 4 ++--
 rail/rami/src/service/get-message.ts | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 1f02531..8df916f 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -76,7 +76,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
@@ -175,7 +175,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
diff --git a/rail/rami/src/service/get-message.ts b/rail/rami/src/service/get-message.ts
index d5c5ccd..fde056e 100644
--- a/rail/rami/src/service/get-message.ts
+++ b/rail/rami/src/service/get-message.ts
@@ -124,6 +124,7 @@ function dbRamiMessageToPassengerInformationMessage(
               : undefined,
             deliveryType:
               message.audio?.delivery_rules?.delivery_type ?? undefined,
+            deliveryAt: message.audio?.delivery_rules?.delivery_at ?? undefined,
             repetitions:
               message.audio?.delivery_rules?.repetitions ?? undefined,
             repeatEvery:
-- 
2.43.0


From db9fbf51dcd70ea03263a30264a7dc56ce41d050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:27 +0000
Subject: [PATCH 61/90] fix: times of messages are stored with seconds

---
 rail/rami/src/dao/message.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 8df916f..395ee1c 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -1,12 +1,12 @@
-import {
-  dateToUTCString,
-  MYSQL_DATETIME_FORMAT,
-} from "@digitraffic/common/dist/utils/date-utils";
+import { dateToUTCString } from "@digitraffic/common/dist/utils/date-utils";
 import type { Connection } from "mysql2/promise.js";
 import type { DtRosmMessage } from "../model/dt-rami-message.js";
 import { inDatabase, inTransaction } from "../util/database.js";
 import { mapDaysToBits } from "../util/weekdays.js";
 
+// with seconds, because messages are compared with given and current time
+const MYSQL_DATETIME_FORMAT = "yyyy-MM-dd HH:mm:ss";
+
 export interface DbRamiAudio {
   readonly text_fi: string | null;
   readonly text_sv: string | null;
-- 
2.43.0


From 580202b6d00341441eb406ee80963ec07bda43cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:54 +0000
Subject: [PATCH 62/90] fix: a message that could not be queued is not
 acknowledged

---
 .../upload-rosm-message/upload-rosm-message.ts   | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rail/rami/src/lambda/upload-rosm-message/upload-rosm-message.ts b/rail/rami/src/lambda/upload-rosm-message/upload-rosm-message.ts
index 78c362f..f275ed1 100644
--- a/rail/rami/src/lambda/upload-rosm-message/upload-rosm-message.ts
+++ b/rail/rami/src/lambda/upload-rosm-message/upload-rosm-message.ts
@@ -1,11 +1,25 @@
 import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
 import { LambdaResponse } from "@digitraffic/common/dist/aws/types/lambda-response";
+import { logException } from "@digitraffic/common/dist/utils/logging";
 import { sendDlq, sendRosmMessage } from "../../service/sqs-service.js";
 import { validateIncomingRosmMessage } from "../../service/validate-message.js";
 
 export const handler = async (
   messageBody: object | undefined,
 ): Promise<LambdaResponse> => {
+  try {
+    return await uploadMessage(messageBody);
+  } catch (error) {
+    logException(logger, error);
+
+    // the message was not queued, so it must not be acknowledged
+    return LambdaResponse.internalError();
+  }
+};
+
+async function uploadMessage(
+  messageBody: object | undefined,
+): Promise<LambdaResponse> {
   if (!messageBody) {
     return LambdaResponse.badRequest("Empty message body");
   }
@@ -41,4 +55,4 @@ export const handler = async (
   }
 
   return LambdaResponse.ok("OK");
-};
+}
-- 
2.43.0


From e1fcc7556011511168599b894da745508e0067db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:40 +0000
Subject: [PATCH 63/90] fix: restored and changed ports of suspensions are
 stored

---
 marine/winter-navigation/src/db/port-suspensions.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/port-suspensions.ts b/marine/winter-navigation/src/db/port-suspensions.ts
index 535f8ae..a5d219a 100644
--- a/marine/winter-navigation/src/db/port-suspensions.ts
+++ b/marine/winter-navigation/src/db/port-suspensions.ts
@@ -24,7 +24,11 @@ const SQL_UPDATE_SUSPENSION_LOCATIONS = `
 insert into wn_port_suspension_location(id, suspension_id, location_id, deleted)
 values ($1, $2, $3, false)
 on conflict(id)
-do nothing`;
+do update set
+    suspension_id = $2,
+    location_id = $3,
+    deleted = false
+`;
 
 const PS_UPDATE_SUSPENSIONS = new pgPromise.PreparedStatement({
   name: "update-suspensions",
-- 
2.43.0


From 6684072c2b5971de1b2d25b769411bc7051fffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:40 +0000
Subject: [PATCH 64/90] fix: deleted vessels are not given by number

---
 marine/winter-navigation/src/db/vessels.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/vessels.ts b/marine/winter-navigation/src/db/vessels.ts
index d24d8c2..22e294c 100644
--- a/marine/winter-navigation/src/db/vessels.ts
+++ b/marine/winter-navigation/src/db/vessels.ts
@@ -21,7 +21,7 @@ do update set
 
 const SQL_GET_VESSEL = `
 WITH target_vessel AS (
-  SELECT id FROM wn_vessel WHERE imo = $3 OR mmsi = $3
+  SELECT id FROM wn_vessel WHERE deleted = false AND (imo = $3 OR mmsi = $3)
 ),
 all_queue_relations AS (
     -- Get queues where the target vessel is the one being assisted
-- 
2.43.0


From d9b7c3d6e5edcaa788c2280fa019be5178860bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:40 +0000
Subject: [PATCH 65/90] fix: vessels without IMO or MMSI are told apart from
 icebreakers

---
 marine/winter-navigation/src/service/vessel-service.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/marine/winter-navigation/src/service/vessel-service.ts b/marine/winter-navigation/src/service/vessel-service.ts
index 31a3b10..3a11a6f 100644
--- a/marine/winter-navigation/src/service/vessel-service.ts
+++ b/marine/winter-navigation/src/service/vessel-service.ts
@@ -80,9 +80,9 @@ function convertVessel(v: VesselDTO, lastUpdated?: Date): Vessel {
 }
 
 function convertActivity(a: ActivityDTO, v: VesselDTO): Activity {
-  const isIcebreaker =
-    v.mmsi === a.icebreaker_mmsi || v.imo === a.icebreaker_imo;
-  const isVessel = v.mmsi === a.vessel_mmsi || v.imo === a.vessel_imo;
+  // every activity of a vessel concerns it either as the vessel or as the icebreaker
+  const isVessel = v.id === a.vessel_id;
+  const isIcebreaker = !isVessel;
   const baseActivity = {
     type: a.type,
     reason: a.reason ?? null,
@@ -120,8 +120,8 @@ function convertActivity(a: ActivityDTO, v: VesselDTO): Activity {
 }
 
 function convertQueue(q: QueueDTO, v: VesselDTO): PlannedAssistance {
-  const isIcebreaker =
-    v.mmsi === q.icebreaker_mmsi || v.imo === q.icebreaker_imo;
+  // every queue entry of a vessel concerns it either as the vessel or as the icebreaker
+  const isIcebreaker = v.id !== q.vessel_id;
 
   const baseAssistance = {
     queuePosition: q.order_num,
-- 
2.43.0


From 4b63522ace95e282f1b103997c03b131c4ee0fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:40 +0000
Subject: [PATCH 66/90] fix: data is not marked checked when fetching it failed

---
 marine/winter-navigation/src/api/ibnet-api.ts        | 11 +++++++++--
 marine/winter-navigation/src/service/data-updater.ts |  6 ++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/marine/winter-navigation/src/api/ibnet-api.ts b/marine/winter-navigation/src/api/ibnet-api.ts
index bb79537..752e4d7 100644
--- a/marine/winter-navigation/src/api/ibnet-api.ts
+++ b/marine/winter-navigation/src/api/ibnet-api.ts
@@ -55,7 +55,14 @@ export class IbnetApi {
       });
   }
 
-  async fetch<T>(path: ApiPath, from: number, to: number): Promise<T[]> {
+  /**
+   * Returns undefined when the fetch failed.
+   */
+  async fetch<T>(
+    path: ApiPath,
+    from: number,
+    to: number,
+  ): Promise<T[] | undefined> {
     const start = Date.now();
     const url = `${this._baseUrl}${path}?from=${from}&to=${to}`;
 
@@ -64,7 +71,7 @@ export class IbnetApi {
     } catch (error) {
       logException(logger, error);
 
-      return [];
+      return undefined;
     } finally {
       logger.info({
         method: "IbnetApi.fetch",
diff --git a/marine/winter-navigation/src/service/data-updater.ts b/marine/winter-navigation/src/service/data-updater.ts
index 2ca1f1e..b26158c 100644
--- a/marine/winter-navigation/src/service/data-updater.ts
+++ b/marine/winter-navigation/src/service/data-updater.ts
@@ -102,6 +102,12 @@ export class DataUpdater {
     }
 
     const objects = await this._api.fetch<T>(apiPath, from, to);
+
+    if (!objects) {
+      // fetching failed, the changes are fetched again on the next run
+      return;
+    }
+
     const deleted: Deleted[] = [];
     const updated: T[] = [];
 
-- 
2.43.0


From a2c415e68eb4e0f5c0274600e48bff58a53c5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:45 +0000
Subject: [PATCH 67/90] fix: a failing query of faults or visits is answered
 with an error

---
 marine/aton-faults/src/lambda/get-faults/get-faults.ts | 2 +-
 marine/port-call/src/lambda/get-visits/get-visits.ts   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marine/aton-faults/src/lambda/get-faults/get-faults.ts b/marine/aton-faults/src/lambda/get-faults/get-faults.ts
index d41800a..b98eaaa 100644
--- a/marine/aton-faults/src/lambda/get-faults/get-faults.ts
+++ b/marine/aton-faults/src/lambda/get-faults/get-faults.ts
@@ -41,7 +41,7 @@ export const handler = async (
   try {
     const getFaultsEvent = GetFaultsSchema.parse(event);
 
-    return proxyHolder
+    return await proxyHolder
       .setCredentials()
       .then(() =>
         findAllFaults(getFaultsEvent.language, getFaultsEvent.fixed_in_hours),
diff --git a/marine/port-call/src/lambda/get-visits/get-visits.ts b/marine/port-call/src/lambda/get-visits/get-visits.ts
index b9361a6..a49e38f 100644
--- a/marine/port-call/src/lambda/get-visits/get-visits.ts
+++ b/marine/port-call/src/lambda/get-visits/get-visits.ts
@@ -25,7 +25,7 @@ export const handler = async (
       portOfCall: parsed.portOfCall?.toUpperCase(),
     };
 
-    return proxyHolder
+    return await proxyHolder
       .setCredentials()
       .then(() => getAllVisits(getVisitsEvent))
       .then(([visits, lastUpdated]) => {
-- 
2.43.0


From 2e8b673c4d3b26b22dcd4f26a03f3b0c65436faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:45 +0000
Subject: [PATCH 68/90] fix: changed vessels of visits are stored

---
 marine/port-call/src/db/visits.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/port-call/src/db/visits.ts b/marine/port-call/src/db/visits.ts
index 20fd21f..8d13c2b 100644
--- a/marine/port-call/src/db/visits.ts
+++ b/marine/port-call/src/db/visits.ts
@@ -34,6 +34,8 @@ const UPSERT_VISITS_SQL = `INSERT INTO pc2_visit(visit_id, vessel_id, vessel_nam
 VALUES ($1, $2, $3, $4, $5, $6, $7, $8, $9, $10)
 ON CONFLICT(visit_id)
 DO UPDATE SET
+    vessel_id = EXCLUDED.vessel_id,
+    vessel_name = EXCLUDED.vessel_name,
     port_locode = EXCLUDED.port_locode,
     eta = EXCLUDED.eta,
     etd = EXCLUDED.etd,
@@ -41,7 +43,9 @@ DO UPDATE SET
     atd = EXCLUDED.atd,
     status = EXCLUDED.status,
     update_time = EXCLUDED.update_time
-WHERE ( pc2_visit.port_locode IS DISTINCT FROM EXCLUDED.port_locode
+WHERE ( pc2_visit.vessel_id IS DISTINCT FROM EXCLUDED.vessel_id
+    OR pc2_visit.vessel_name IS DISTINCT FROM EXCLUDED.vessel_name
+    OR pc2_visit.port_locode IS DISTINCT FROM EXCLUDED.port_locode
     OR pc2_visit.eta IS DISTINCT FROM EXCLUDED.eta
     OR pc2_visit.etd IS DISTINCT FROM EXCLUDED.etd
     OR pc2_visit.ata IS DISTINCT FROM EXCLUDED.ata
-- 
2.43.0


From 35c08a0427f9883513d951c5c273ad10a4d07637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:45 +0000
Subject: [PATCH 69/90] fix: times of faults are read in Finnish time

---
 marine/aton-faults/src/db/faults.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marine/aton-faults/src/db/faults.ts b/marine/aton-faults/src/db/faults.ts
index 1492c93..42fe30f 100644
--- a/marine/aton-faults/src/db/faults.ts
+++ b/marine/aton-faults/src/db/faults.ts
@@ -1,8 +1,8 @@
-import { TZDate } from "@date-fns/tz";
+import { tz } from "@date-fns/tz";
 import type { DTDatabase } from "@digitraffic/common/dist/database/database";
 import type { Language } from "@digitraffic/common/dist/types/language";
 import { createGeometry } from "@digitraffic/common/dist/utils/geometry";
-import { subHours } from "date-fns";
+import { parseISO, subHours } from "date-fns";
 import { default as pgPromise } from "pg-promise";
 import type { LineString } from "wkx";
 import type { DbFault, FaultFeature } from "../model/fault.js";
@@ -184,8 +184,8 @@ export function findAll<T>(
 
 function parseHelsinkiTime(date: string | null): Date | undefined {
   if (date !== null) {
-    // incoming dates are in Finnish-time without timezone-info, this probably handles it correctly
-    return new TZDate(date, "Europe/Helsinki");
+    // incoming dates are in Finnish-time without timezone-info
+    return parseISO(date, { in: tz("Europe/Helsinki") });
   }
 
   return undefined;
-- 
2.43.0


From e028ca56ccc1ea98ffa6f1d1795dd35e671ba84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:45 +0000
Subject: [PATCH 70/90] fix: faults are stored in the transaction

---
 marine/aton-faults/src/db/faults.ts             | 7 +++++--
 marine/aton-faults/src/service/update-faults.ts | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/marine/aton-faults/src/db/faults.ts b/marine/aton-faults/src/db/faults.ts
index 42fe30f..3b7a711 100644
--- a/marine/aton-faults/src/db/faults.ts
+++ b/marine/aton-faults/src/db/faults.ts
@@ -1,5 +1,8 @@
 import { tz } from "@date-fns/tz";
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import type { Language } from "@digitraffic/common/dist/types/language";
 import { createGeometry } from "@digitraffic/common/dist/utils/geometry";
 import { parseISO, subHours } from "date-fns";
@@ -132,7 +135,7 @@ export function findFaultIdsByRoute(
 }
 
 export function updateFaults(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   domain: string,
   faults: FaultFeature[],
 ): Promise<unknown>[] {
diff --git a/marine/aton-faults/src/service/update-faults.ts b/marine/aton-faults/src/service/update-faults.ts
index b1e6e4e..d33b261 100644
--- a/marine/aton-faults/src/service/update-faults.ts
+++ b/marine/aton-faults/src/service/update-faults.ts
@@ -19,9 +19,9 @@ export async function updateFaults(url: string, domain: string): Promise<void> {
   await inDatabase((db: DTDatabase) => {
     return db.tx((t: DTTransaction) => {
       return t.batch([
-        ...FaultsDB.updateFaults(db, domain, validated),
+        ...FaultsDB.updateFaults(t, domain, validated),
         LastUpdatedDB.updateUpdatedTimestamp(
-          db,
+          t,
           ATON_FAULTS_CHECK,
           new Date(start),
         ),
-- 
2.43.0


From 8af4427c4e0490dd0009669540c21647f315ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:45 +0000
Subject: [PATCH 71/90] fix: changed faults are stored

---
 marine/aton-faults/src/db/faults.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/marine/aton-faults/src/db/faults.ts b/marine/aton-faults/src/db/faults.ts
index 3b7a711..91c774a 100644
--- a/marine/aton-faults/src/db/faults.ts
+++ b/marine/aton-faults/src/db/faults.ts
@@ -47,7 +47,18 @@ const UPSERT_FAULTS_SQL = `insert into aton_fault(id, entry_timestamp, fixed_tim
       entry_timestamp=$2,
       fixed_timestamp=$3,
       state=$4,
-      fixed=$7`;
+      type=$5,
+      domain=$6,
+      fixed=$7,
+      aton_id=$8,
+      aton_name_fi=$9,
+      aton_name_sv=$10,
+      aton_type_fi=$11,
+      fairway_number=$12,
+      fairway_name_fi=$13,
+      fairway_name_sv=$14,
+      area_number=$15,
+      geometry=$16`;
 
 const GET_FAULT_BY_ID = `
     select
-- 
2.43.0


From 920aef8151d843a8c8800bc17130abb693b99c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:45 +0000
Subject: [PATCH 72/90] fix: faults are not marked checked when fetching them
 failed

---
 marine/aton-faults/src/api/faults.ts            | 6 +++---
 marine/aton-faults/src/service/update-faults.ts | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/marine/aton-faults/src/api/faults.ts b/marine/aton-faults/src/api/faults.ts
index 144ce43..8967206 100644
--- a/marine/aton-faults/src/api/faults.ts
+++ b/marine/aton-faults/src/api/faults.ts
@@ -15,7 +15,7 @@ export class FaultsApi {
     this.endpointUrl = endpointUrl;
   }
 
-  public async getFaults(): Promise<FaultFeature[]> {
+  public async getFaults(): Promise<FaultFeature[] | undefined> {
     const start = Date.now();
 
     return ky
@@ -33,7 +33,7 @@ export class FaultsApi {
             customDetails: resp.statusText,
           });
 
-          return [];
+          return undefined;
         }
 
         const features = await resp.json<ApiFeatures>();
@@ -50,7 +50,7 @@ export class FaultsApi {
       .catch((error) => {
         logException(logger, error);
 
-        return [];
+        return undefined;
       });
   }
 }
diff --git a/marine/aton-faults/src/service/update-faults.ts b/marine/aton-faults/src/service/update-faults.ts
index d33b261..8b1e881 100644
--- a/marine/aton-faults/src/service/update-faults.ts
+++ b/marine/aton-faults/src/service/update-faults.ts
@@ -14,6 +14,12 @@ export async function updateFaults(url: string, domain: string): Promise<void> {
   const start = Date.now();
 
   const newFaults = await new FaultsApi(url).getFaults();
+
+  // fetching failed, nothing was checked
+  if (!newFaults) {
+    return;
+  }
+
   const validated = newFaults.filter(validate);
 
   await inDatabase((db: DTDatabase) => {
-- 
2.43.0


From df87c67327256dd414acaf3638f851b2f73f525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:58 +0000
Subject: [PATCH 73/90] fix: an unhandled error of a function is answered with
 500

---
 lib/digitraffic-common/src/aws/infra/api/response.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/response.ts b/lib/digitraffic-common/src/aws/infra/api/response.ts
index 65e6eda..df9d508 100644
--- a/lib/digitraffic-common/src/aws/infra/api/response.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/response.ts
@@ -15,6 +15,7 @@ import { MediaType } from "../../types/mediatypes.js";
  * This is velocity-script, that assumes the response to be LambdaResponse(status and body).
  * It will always return the body and status, but if status in something else than 200 OK the content-type
  * will be overridden to text/plain. (it's assumed, that lambda will return error text).
+ * If there is no status, the lambda has failed and the status will be 500.
  *
  * Body content must be base64-encoded! use LambdaResponse for this! This way you can also return
  * non-textual content.
@@ -23,7 +24,10 @@ import { MediaType } from "../../types/mediatypes.js";
  * If timestamp is set, then ETag & Last-Modified headers will be set
  */
 export const RESPONSE_DEFAULT_LAMBDA = `#set($inputRoot = $input.path('$'))##
-#if ($inputRoot.status != 200)##
+#if ("$!inputRoot.status" == "")##
+#set ($context.responseOverride.status = 500)##
+#set ($context.responseOverride.header.Content-Type = 'text/plain')##
+#elseif ($inputRoot.status != 200)##
 #set ($context.responseOverride.status = $inputRoot.status)##
 #set ($context.responseOverride.header.Content-Type = 'text/plain')##
 #end##
-- 
2.43.0


From 70e82d536313cd522b6c07efbb7d304c6b3c4a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:09 +0000
Subject: [PATCH 74/90] fix: the answer to a failed update is valid JSON

---
 marine/sea-state-estimate/src/integration-api.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/sea-state-estimate/src/integration-api.ts b/marine/sea-state-estimate/src/integration-api.ts
index a0c51eb..0f83e0a 100644
--- a/marine/sea-state-estimate/src/integration-api.ts
+++ b/marine/sea-state-estimate/src/integration-api.ts
@@ -89,7 +89,7 @@ const RESPONSE_500_SERVER_ERROR: IntegrationResponse = {
   selectionPattern: `.*${ERROR_MESSAGE}.*`,
   responseTemplates: {
     "application/json":
-      '{ "message" : "Internal server error. $util.parseJson($input.path(\'$.errorMessage\')).errorMessage" }',
+      '{ "message" : "Internal server error. $util.escapeJavaScript($util.parseJson($input.path(\'$.errorMessage\')).errorMessage).replaceAll("\\\\\'","\'")" }',
   },
 };
 
-- 
2.43.0


From 4bd2f02e92b98eb5ee0f908d786f60a63552a14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:13 +0000
Subject: [PATCH 75/90] fix: counts of a site are saved once, whatever happens
 to other sites

---
 road/counting-site/src/dao/data.ts            |  7 +++-
 road/counting-site/src/dao/site.ts            |  7 +++-
 .../src/service/update-service.ts             | 38 +++++++++++++------
 3 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/road/counting-site/src/dao/data.ts b/road/counting-site/src/dao/data.ts
index 37aaa61..4733bd4 100644
--- a/road/counting-site/src/dao/data.ts
+++ b/road/counting-site/src/dao/data.ts
@@ -1,4 +1,7 @@
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import type { ApiData } from "../model/v2/api-model.js";
 import type { DbCsvData, DbValues } from "../model/v2/db-model.js";
 import type { TravelMode } from "../model/v2/types.js";
@@ -124,7 +127,7 @@ export async function findCsvValuesForMonth(
 }
 
 export async function addSiteData(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   siteId: number,
   data: ApiData[],
 ): Promise<number> {
diff --git a/road/counting-site/src/dao/site.ts b/road/counting-site/src/dao/site.ts
index fc73a57..62db37d 100644
--- a/road/counting-site/src/dao/site.ts
+++ b/road/counting-site/src/dao/site.ts
@@ -1,4 +1,7 @@
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import type { FeatureCollection } from "geojson";
 import { sql } from "kysely";
 import { default as pgPromise } from "pg-promise";
@@ -153,7 +156,7 @@ export async function updateSites(
 }
 
 export async function updateSiteTimestamp(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   siteId: number,
   timestamp: Date,
 ): Promise<void> {
diff --git a/road/counting-site/src/service/update-service.ts b/road/counting-site/src/service/update-service.ts
index 169704c..5ed8729 100644
--- a/road/counting-site/src/service/update-service.ts
+++ b/road/counting-site/src/service/update-service.ts
@@ -1,5 +1,8 @@
 import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import {
   inDatabase,
   inDatabaseReadonly,
@@ -25,7 +28,7 @@ import {
   updateSites,
   updateSiteTimestamp,
 } from "../dao/site.js";
-import type { ApiSite } from "../model/v2/api-model.js";
+import type { ApiData, ApiSite } from "../model/v2/api-model.js";
 import type { DbSite } from "../model/v2/db-model.js";
 import type { Domain } from "../model/v2/types.js";
 
@@ -88,7 +91,8 @@ export async function updateData(
   const sitesInDb = await getAllSitesFromDb(domain); // site_id -> counter
 
   return await inDatabase(async (db: DTDatabase) => {
-    await Promise.all(
+    // a site that fails must not leave the other sites half updated
+    const results = await Promise.allSettled(
       sitesInDb.map(async (site: DbSite) => {
         if (site.removed_timestamp) {
           logger.info({
@@ -124,7 +128,16 @@ export async function updateData(
             customUpdatedCount: data.length,
           });
 
-          const pointCount = await addSiteData(db, site.id, data);
+          // values and the timestamp are saved together, otherwise values would be saved again on next update
+          const pointCount = await db.tx(async (t: DTTransaction) => {
+            const added = await addSiteData(t, site.id, data);
+
+            if (added > 0) {
+              await updateSiteTimestamp(t, site.id, getEndStamp(data));
+            }
+
+            return added;
+          });
 
           if (pointCount === 0) {
             logger.info({
@@ -150,19 +163,13 @@ export async function updateData(
               });
             }
           } else {
-            const actualEndStamp = max(
-              data.flatMap((d) => d.data).map((p) => p.timestamp),
-            );
-
             logger.info({
               method: "V2UpdateService.updateDataForDomain",
               customSite: site.id,
               customObjectType: "point",
               customUpdatedCount: pointCount,
-              customEndTime: actualEndStamp,
+              customEndTime: getEndStamp(data),
             });
-
-            await updateSiteTimestamp(db, site.id, actualEndStamp);
           }
         } else {
           logger.info({
@@ -177,10 +184,19 @@ export async function updateData(
       }),
     );
 
+    const failed = results.find((result) => result.status === "rejected");
+    if (failed) {
+      throw failed.reason;
+    }
+
     await updateLastUpdated(db, DataType.COUNTING_SITES_DATA, new Date());
   });
 }
 
+function getEndStamp(data: ApiData[]): Date {
+  return max(data.flatMap((d) => d.data).map((p) => p.timestamp));
+}
+
 /// check if data needs update, if last update timestamp is more than one day in the past
 function isDataUpdateNeeded(site: DbSite): boolean {
   return (
-- 
2.43.0


From a693aba5695f07e45773d0bef3e36f1b9573dca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:13 +0000
Subject: [PATCH 76/90] fix: the time a counting site was removed is kept

---
 road/counting-site/src/service/update-service.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/road/counting-site/src/service/update-service.ts b/road/counting-site/src/service/update-service.ts
index 5ed8729..084d16c 100644
--- a/road/counting-site/src/service/update-service.ts
+++ b/road/counting-site/src/service/update-service.ts
@@ -213,7 +213,9 @@ function compareSites(
   const dbSiteIdSet = new Set(sitesInDb.map((s) => s.id));
 
   const newSites = sitesInApi.filter((s) => !dbSiteIdSet.has(s.id));
-  const removedSites = sitesInDb.filter((s) => !apiSiteIdSet.has(s.id));
+  const removedSites = sitesInDb.filter(
+    (s) => !apiSiteIdSet.has(s.id) && !s.removed_timestamp,
+  );
   const updatedSites = sitesInApi.filter((s) => dbSiteIdSet.has(s.id));
 
   return [newSites, removedSites, updatedSites];
-- 
2.43.0


From 7e895d73c867e4766a88e29aa7eb98e81f8f02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:20 +0000
Subject: [PATCH 77/90] fix: a check that sends data does not change the
 headers of other checks

---
 other/status/src/api/nodeping-api.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/other/status/src/api/nodeping-api.ts b/other/status/src/api/nodeping-api.ts
index fc62ce3..c25ff1a 100644
--- a/other/status/src/api/nodeping-api.ts
+++ b/other/status/src/api/nodeping-api.ts
@@ -370,7 +370,7 @@ export class NodePingApi {
       threshold: this.checkTimeoutSeconds,
       enabled: true,
       follow: true,
-      sendheaders: NODEPING_SENT_HEADERS,
+      sendheaders: { ...NODEPING_SENT_HEADERS },
       method: checkMethod,
       notifications: this.createNotificationsPostData(contactIds),
     };
@@ -434,7 +434,7 @@ export class NodePingApi {
       threshold: this.checkTimeoutSeconds,
       method: checkMethod,
       interval: this.checkIntervalMinutes,
-      sendheaders: NODEPING_SENT_HEADERS,
+      sendheaders: { ...NODEPING_SENT_HEADERS },
       notifications: this.createNotificationsPostData(contactIds),
     } as const satisfies NodePingCheckPutData;
 
-- 
2.43.0


From 99ecd96adacfad004c3b96e9aa087e6f9b9f9184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:20 +0000
Subject: [PATCH 78/90] fix: a check named by its app and path follows its
 monitored endpoint

---
 other/status/src/service/status-service.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/other/status/src/service/status-service.ts b/other/status/src/service/status-service.ts
index dbd5778..7c26dbe 100644
--- a/other/status/src/service/status-service.ts
+++ b/other/status/src/service/status-service.ts
@@ -260,7 +260,8 @@ export async function updateChecks(
     const correspondingExtraEndpoint = extraEndpoints.find(
       (e) =>
         e.url === check.parameters.target ||
-        e.name.toLowerCase() === check.label.toLowerCase(),
+        e.name.toLowerCase() === check.label.toLowerCase() ||
+        `${app} ${e.name}`.toLowerCase() === check.label.toLowerCase(),
     );
 
     const checksContactIds = getContactIds(
-- 
2.43.0


From 1f9739bda1ddfc8c99c90edc6e66560f19cdc089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:20 +0000
Subject: [PATCH 79/90] fix: checks and systems of the status page are matched
 by app and path

---
 other/status/src/service/status-service.ts | 45 ++++++++++++++--------
 other/status/src/service/utils.ts          | 13 +++++++
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/other/status/src/service/status-service.ts b/other/status/src/service/status-service.ts
index 7c26dbe..e983775 100644
--- a/other/status/src/service/status-service.ts
+++ b/other/status/src/service/status-service.ts
@@ -14,7 +14,7 @@ import type {
 import type { MonitoredApp, MonitoredEndpoint } from "../app-props.js";
 import type { AppWithEndpoints } from "../model/app-with-endpoints.js";
 import type { UpdateStatusSecret } from "../secret.js";
-import { removeAppAndTrim, removeTrailingSlash } from "./utils.js";
+import { findApp, removeAppAndTrim, removeTrailingSlash } from "./utils.js";
 
 const SERVICE = "StatusService" as const;
 const BETA = "beta" as const;
@@ -27,34 +27,25 @@ export async function getNodePingAndStatuspageComponentNotInSyncStatuses(
   const cStateStatus = await cStateStatuspageApi.getStatus();
   const cStateMaintenanceOn = await cStateStatuspageApi.isActiveMaintenances();
 
-  const nodePingCheckMap: Record<string, NodePingCheck> = {};
-  for (const npc of nodePingChecks) {
-    nodePingCheckMap[convertToCstateNameWithoutApp(npc.label).toLowerCase()] =
-      npc;
-  }
-
-  const cStateSystemsMap: Record<string, CStateSystem> = {};
-  for (const system of cStateStatus.systems) {
-    cStateSystemsMap[convertToCstateNameWithoutApp(system.name)] = system;
-  }
+  const findNodePingCheck = (name: string): NodePingCheck | undefined =>
+    findCorresponding(name, nodePingChecks, (npc) => npc.label);
+  const findCStateSystem = (name: string): CStateSystem | undefined =>
+    findCorresponding(name, cStateStatus.systems, (system) => system.name);
 
   const missingCStateSystems = nodePingChecks
     .filter((npc) => !isBeta(npc.label))
-    .filter(
-      (npc) => !(convertToCstateNameWithoutApp(npc.label) in cStateSystemsMap),
-    )
+    .filter((npc) => !findCStateSystem(npc.label))
     .map((npc) => `${npc.label}: cState Statuspage system missing`);
 
   const missingNodePingChecksVsCState = cStateStatus.systems
-    .filter((sc) => !(removeAppAndTrim(sc.name) in nodePingCheckMap))
+    .filter((sc) => !findNodePingCheck(sc.name))
     .map((sc) => `${sc.name}: NodePing check missing`);
 
   const outOfSyncWithCStateStatusPage = cStateMaintenanceOn
     ? []
     : cStateStatus.systems
         .map((cStateSystem) => {
-          const nodePingCheck =
-            nodePingCheckMap[convertToCstateNameWithoutApp(cStateSystem.name)];
+          const nodePingCheck = findNodePingCheck(cStateSystem.name);
           if (!nodePingCheck) {
             return null;
           }
@@ -75,6 +66,26 @@ export async function getNodePingAndStatuspageComponentNotInSyncStatuses(
     .concat(outOfSyncWithCStateStatusPage);
 }
 
+/**
+ * Different apps can have the same path, so the app must match also.
+ * Name without app corresponds to the same path of any app.
+ */
+function findCorresponding<T>(
+  name: string,
+  items: T[],
+  nameOf: (item: T) => string,
+): T | undefined {
+  const path = convertToCstateNameWithoutApp(name);
+  const app = findApp(name);
+  const itemsWithPath = items.filter(
+    (item) => convertToCstateNameWithoutApp(nameOf(item)) === path,
+  );
+  return (
+    itemsWithPath.find((item) => findApp(nameOf(item)) === app) ??
+    itemsWithPath.find((item) => !app || !findApp(nameOf(item)))
+  );
+}
+
 /**
  * Statuspage labels:
  * Rail Swagger -> /swagger
diff --git a/other/status/src/service/utils.ts b/other/status/src/service/utils.ts
index 6d39233..ae63e3c 100644
--- a/other/status/src/service/utils.ts
+++ b/other/status/src/service/utils.ts
@@ -1,5 +1,18 @@
 import { TrafficType } from "@digitraffic/common/dist/types/traffictype";
 
+/**
+ * Finds the app name that the given string starts with
+ * @param text to find app name from
+ */
+export function findApp(text: string): TrafficType | undefined {
+  const lowerText = text.toLowerCase();
+  return Object.values(TrafficType).find(
+    (appName) =>
+      lowerText.startsWith(appName.toLowerCase()) ||
+      lowerText.startsWith(`/${appName.toLowerCase()}`),
+  );
+}
+
 /**
  * Removes app name from the given string and strips trailing slash
  * @param text to remove app name
-- 
2.43.0


From 0c7d6a09a3d92c698dede852eb7ef0890cedd932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:34 +0000
Subject: [PATCH 80/90] fix: a key figure of a month does not count the next
 month's first moment

---
 .../src/adapters/driven/opensearch/metric-query.ts              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts b/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
index 060a83b..035a7ab 100644
--- a/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
+++ b/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
@@ -99,7 +99,7 @@ export abstract class AccessLogQuery extends MetricQuery {
           range: {
             "@timestamp": {
               gte: startTime,
-              lte: endTime,
+              lt: endTime,
               format: "strict_date_optional_time",
             },
           },
-- 
2.43.0


From 3871956091d8738cc77392bdf3236cf2d6a3a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:34 +0000
Subject: [PATCH 81/90] fix: each key figure is stored once, also after a run
 that stored a part of them

---
 .../driven/mysql/mysql-metric-store.ts        | 41 +++++++++----------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts b/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts
index dc59730..fe5e0ed 100644
--- a/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts
+++ b/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts
@@ -34,30 +34,27 @@ export class MySqlMetricStore implements ForPersistingMetrics {
   }
 
   async persist(metrics: CollectedMetric[]): Promise<void> {
-    if (metrics.length === 0 || !metrics[0]) {
-      return;
-    }
-
-    const firstMetric = metrics[0];
-    const startDate = firstMetric.period.from;
-    const existingRows = await this.existsForPeriod(
-      firstMetric.scope.storageTag,
-      firstMetric.definition.name,
-      startDate,
-    );
-
-    const tableName = existingRows
-      ? DUPLICATES_TABLE_NAME
-      : KEY_FIGURES_TABLE_NAME;
-
-    if (existingRows) {
-      // Drop and recreate duplicates table for duplicate data
-      await this.execute("DROP TABLE IF EXISTS ??", [DUPLICATES_TABLE_NAME]);
-      await this.createTable(DUPLICATES_TABLE_NAME);
-    }
+    let duplicatesTableCreated = false;
 
     for (const metric of metrics) {
-      await this.insertMetric(metric, tableName);
+      // An earlier run may have stored only a part of the metrics
+      const isDuplicate = await this.existsForPeriod(
+        metric.scope.storageTag,
+        metric.definition.name,
+        metric.period.from,
+      );
+
+      if (isDuplicate && !duplicatesTableCreated) {
+        // Drop and recreate duplicates table for duplicate data
+        await this.execute("DROP TABLE IF EXISTS ??", [DUPLICATES_TABLE_NAME]);
+        await this.createTable(DUPLICATES_TABLE_NAME);
+        duplicatesTableCreated = true;
+      }
+
+      await this.insertMetric(
+        metric,
+        isDuplicate ? DUPLICATES_TABLE_NAME : KEY_FIGURES_TABLE_NAME,
+      );
     }
   }
 
-- 
2.43.0


From e88ac3c2a5754936f72f9692be4db64852ff7eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:34 +0000
Subject: [PATCH 82/90] fix: an unreadable answer of OpenSearch does not hang
 the collecting of key figures

---
 other/os-key-figures/src/api/opensearch.ts | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/other/os-key-figures/src/api/opensearch.ts b/other/os-key-figures/src/api/opensearch.ts
index 9ebf4f2..815177c 100644
--- a/other/os-key-figures/src/api/opensearch.ts
+++ b/other/os-key-figures/src/api/opensearch.ts
@@ -55,9 +55,8 @@ export class OpenSearch {
     const client = new NodeHttpHandler();
 
     const makeRequest = async (): Promise<OpenSearchResponse> => {
-      // biome-ignore lint/suspicious/noAsyncPromiseExecutor: fix later
-      return new Promise(async (resolve, reject) => {
-        const { response } = await client.handle(signedRequest);
+      const { response } = await client.handle(signedRequest);
+      return new Promise((resolve, reject) => {
         this.handleResponseFromOs(
           response,
           (result) => {
@@ -98,18 +97,27 @@ export class OpenSearch {
       );
       return;
     }
-    let responseBody = "";
-    response.body.on("data", (chunk: string) => {
-      responseBody += chunk;
+    const chunks: Buffer[] = [];
+    response.body.on("data", (chunk: Buffer | string) => {
+      chunks.push(Buffer.from(chunk as string));
+    });
+    response.body.on("error", (error: Error) => {
+      failedCallback(
+        statusCode,
+        `Failed to read response body: ${error.message}`,
+      );
     });
     response.body.on("end", () => {
+      const responseBody = Buffer.concat(chunks).toString("utf8");
       try {
         successCallback(JSON.parse(responseBody));
       } catch (_e) {
+        const message = `Failed to parse response body: ${responseBody}`;
         logger.info({
-          message: `Failed to parse response body: ${responseBody}`,
+          message,
           method: "os-query.handleResponseFromOs",
         });
+        failedCallback(statusCode, message);
       }
     });
   }
-- 
2.43.0


From c23eca9b0ac80cbfdb203748e4e267a622644de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:34 +0000
Subject: [PATCH 83/90] fix: key figure pages are made whatever names clients
 use and figures are missing

---
 .../src/lambda/create-visualizations.ts       | 63 +++++++++++--------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/other/os-key-figures/src/lambda/create-visualizations.ts b/other/os-key-figures/src/lambda/create-visualizations.ts
index 3505acd..df2f3fe 100644
--- a/other/os-key-figures/src/lambda/create-visualizations.ts
+++ b/other/os-key-figures/src/lambda/create-visualizations.ts
@@ -71,7 +71,8 @@ function createGraph(
 function topDataToGraphData(
   data: KeyFigure[],
 ): { values: [Date, number][]; key: string }[] {
-  const output: { [key: string]: [Date, number][] } = {};
+  // the keys come from clients: "constructor" is as good as any other
+  const output: { [key: string]: [Date, number][] } = Object.create(null);
   for (const rivi of data) {
     const valueJson = JSON.parse(rivi.value as string) as Record<
       string,
@@ -191,7 +192,7 @@ async function createDetailPage(filter: string): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -205,7 +206,7 @@ async function createDetailPage(filter: string): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -219,7 +220,7 @@ async function createDetailPage(filter: string): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -233,7 +234,7 @@ async function createDetailPage(filter: string): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -274,7 +275,7 @@ async function createDetailPage(filter: string): Promise<string> {
 async function createIndex(): Promise<string> {
   const filters = (await query(
     "select distinct kf_outer.filter as filter, (select kf_inner.value from key_figures kf_inner where kf_inner.filter = kf_outer.filter and kf_inner.name = 'Http req' order by kf_inner.`from` desc limit 1) as filterValue from key_figures kf_outer  order by filterValue desc",
-  )) as { filter: string; filterValue: number }[];
+  )) as { filter: string; filterValue: number | null }[];
   const filterHeader =
     "<table><tr><th>Endpoint</th><th>Requests (last month)</th></tr>";
 
@@ -284,9 +285,9 @@ async function createIndex(): Promise<string> {
   )) {
     roadFilterHtml += `<tr><td><a href="${base64encodeFilter(
       row.filter,
-    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${row.filterValue
-      .toString()
-      .replace(/\B(?=(\d{3})+(?!\d))/g, ",")}</td></tr>`;
+    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${formatRequests(
+      row.filterValue,
+    )}</td></tr>`;
   }
   roadFilterHtml += "</table>";
 
@@ -296,9 +297,9 @@ async function createIndex(): Promise<string> {
   )) {
     railFilterHtml += `<tr><td><a href="${base64encodeFilter(
       row.filter,
-    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${row.filterValue
-      .toString()
-      .replace(/\B(?=(\d{3})+(?!\d))/g, ",")}</td></tr>`;
+    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${formatRequests(
+      row.filterValue,
+    )}</td></tr>`;
   }
   railFilterHtml += "</table>";
 
@@ -308,9 +309,9 @@ async function createIndex(): Promise<string> {
   )) {
     marineFilterHtml += `<tr><td><a href="${base64encodeFilter(
       row.filter,
-    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${row.filterValue
-      .toString()
-      .replace(/\B(?=(\d{3})+(?!\d))/g, ",")}</td></tr>`;
+    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${formatRequests(
+      row.filterValue,
+    )}</td></tr>`;
   }
   marineFilterHtml += "</table>";
 
@@ -320,9 +321,9 @@ async function createIndex(): Promise<string> {
   )) {
     afirFilterHtml += `<tr><td><a href="${base64encodeFilter(
       row.filter,
-    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${row.filterValue
-      .toString()
-      .replace(/\B(?=(\d{3})+(?!\d))/g, ",")}</td></tr>`;
+    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${formatRequests(
+      row.filterValue,
+    )}</td></tr>`;
   }
   afirFilterHtml += "</table>";
 
@@ -384,7 +385,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -399,7 +400,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -414,7 +415,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -429,7 +430,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -444,7 +445,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -459,7 +460,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -474,7 +475,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -509,6 +510,18 @@ async function createIndex(): Promise<string> {
 `;
 }
 
+/** The requests of an endpoint are missing when collecting them has failed. */
+function formatRequests(value: number | null): string {
+  return value === null
+    ? "-"
+    : value.toString().replace(/\B(?=(\d{3})+(?!\d))/g, ",");
+}
+
+/** User agents, referers etc. come from clients and may contain anything. */
+function toScriptString(value: string): string {
+  return JSON.stringify(value).replace(/</g, "\\u003c");
+}
+
 function base64encodeFilter(filter: string): string {
   return Buffer.from(filter).toString("base64");
 }
-- 
2.43.0


From 1f424ec472a37c321af9dae9c0ede5bf63b34331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:40 +0000
Subject: [PATCH 84/90] fix: an update of monitors ends when an answer breaks
 off

The answer's stream was only waited to end: one that failed was never
noticed, and the lambda crashed or hung. Letters split between two chunks
were also spoiled.
---
 other/opensearch-monitors/src/api/opensearch.ts | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/other/opensearch-monitors/src/api/opensearch.ts b/other/opensearch-monitors/src/api/opensearch.ts
index 45d58e0..0cda303 100644
--- a/other/opensearch-monitors/src/api/opensearch.ts
+++ b/other/opensearch-monitors/src/api/opensearch.ts
@@ -111,20 +111,23 @@ export class OpenSearch {
       });
     }
 
-    let responseBody = "";
-    await new Promise((resolve) => {
-      response.body.on("data", (chunk: string) => {
-        responseBody += chunk;
+    const chunks: Buffer[] = [];
+    await new Promise<void>((resolve, reject) => {
+      response.body.on("data", (chunk: Buffer) => {
+        chunks.push(chunk);
       });
 
       response.body.on("end", () => {
-        resolve(responseBody);
+        resolve();
       });
+
+      response.body.on("error", reject);
     }).catch((error) => {
       logException(logger, error);
 
-      return undefined;
+      throw error;
     });
+    const responseBody = Buffer.concat(chunks).toString("utf-8");
 
     return JSON.parse(responseBody) as OSMonitorsResponse;
   }
-- 
2.43.0


From 0eb429c824ddfde33f0f0bb5ab0a352d4dfadf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:40 +0000
Subject: [PATCH 85/90] fix: an update that could not replace a monitor fails

Error answers of OpenSearch were only logged, and the check compared names:
a monitor that was neither deleted nor added again passed as updated, and
one that remained beside its replacement went unnoticed.
---
 .../opensearch-monitors/src/api/opensearch.ts | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/other/opensearch-monitors/src/api/opensearch.ts b/other/opensearch-monitors/src/api/opensearch.ts
index 0cda303..7a2b663 100644
--- a/other/opensearch-monitors/src/api/opensearch.ts
+++ b/other/opensearch-monitors/src/api/opensearch.ts
@@ -109,6 +109,9 @@ export class OpenSearch {
         customMonitorName: monitorName,
         customBody: body,
       });
+      throw new Error(
+        `OpenSearch responded with ${response.statusCode} to ${method} ${path}`,
+      );
     }
 
     const chunks: Buffer[] = [];
@@ -186,7 +189,7 @@ export class OpenSearch {
       customCount: monitors.length,
     });
 
-    await Promise.allSettled(
+    const results = await Promise.allSettled(
       monitors.map(async (monitor) => {
         try {
           const response = await this.addMonitor(monitor);
@@ -207,6 +210,13 @@ export class OpenSearch {
         }
       }),
     );
+
+    const failed = results.filter((r) => r.status === "rejected").length;
+    if (failed > 0) {
+      throw new Error(
+        `UpdateOsMonitors.addMonitors failed. ${failed} of ${monitors.length} monitors were not added`,
+      );
+    }
   }
 
   async checkMonitorsUptodate(expectedMonitors: OSMonitor[]): Promise<void> {
@@ -215,6 +225,11 @@ export class OpenSearch {
     const currentNames = new Set(currentMonitors.map((m) => m.name));
     const expectedNames = new Set(expectedMonitors.map((m) => m.name));
 
+    // A monitor that could not be deleted remains beside its replacement
+    const duplicateMonitors = [...currentNames.keys()].filter(
+      (name) => currentMonitors.filter((m) => m.name === name).length > 1,
+    );
+
     // Find monitors that are missing in monitorsAfterUpdate
     // Check for monitors that are in currentMap but missing in updatedMap
     const unexpectedMonitors = [...currentNames.keys()].filter(
@@ -258,5 +273,18 @@ export class OpenSearch {
     } else {
       logger.debug({ message: "No unexpected monitors are present" });
     }
+
+    if (duplicateMonitors.length > 0) {
+      logger.error({
+        method: "UpdateOsMonitors.checkMonitorsUptodate",
+        message: "Duplicate monitors found:",
+        customDuplicateMonitors: duplicateMonitors.join(", "),
+      });
+      throw new Error(
+        `UpdateOsMonitors.checkMonitorsUptodate failed. Duplicate monitors found: ${duplicateMonitors.join(
+          ", ",
+        )}`,
+      );
+    }
   }
 }
-- 
2.43.0


From 983f3689970c40428c0b04bc2c8c1a9ad624aaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:40 +0000
Subject: [PATCH 86/90] fix: all monitors are deleted and checked, not the
 first 200

---
 other/opensearch-monitors/src/api/opensearch.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/other/opensearch-monitors/src/api/opensearch.ts b/other/opensearch-monitors/src/api/opensearch.ts
index 7a2b663..2e170b5 100644
--- a/other/opensearch-monitors/src/api/opensearch.ts
+++ b/other/opensearch-monitors/src/api/opensearch.ts
@@ -41,7 +41,7 @@ const OS_MONITORS_URL_PATH = "/_plugins/_alerting/monitors/";
 const OS_SEARCH_MONITORS_PATH = `${OS_MONITORS_URL_PATH}_search`;
 
 const OS_MONITORS_SEACH = JSON.stringify({
-  size: 200,
+  size: 10000,
   query: {
     exists: {
       field: "monitor",
-- 
2.43.0


From 2db8e6299eb387ccc23f259d4fdce27546ac15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:02 +0000
Subject: [PATCH 87/90] fix: aggregated terms keep both their inner terms and
 their filter

The filter of the buckets replaced the inner aggregation, only the first dot
of a field was replaced in the name, which conditions could not refer to then,
and only ten buckets were ever returned, so that a higher threshold was never
exceeded.
---
 .../src/monitor/aggregates.ts                 |  5 +++-
 .../src/monitor/monitor-builder.ts            | 24 +++++++++++--------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/other/opensearch-monitors/src/monitor/aggregates.ts b/other/opensearch-monitors/src/monitor/aggregates.ts
index b044050..8115c40 100644
--- a/other/opensearch-monitors/src/monitor/aggregates.ts
+++ b/other/opensearch-monitors/src/monitor/aggregates.ts
@@ -2,8 +2,11 @@ export interface TermsAggregate {
   [name: string]: {
     terms: {
       field: string;
+      size?: number;
+    };
+    aggregations?: {
+      [name: string]: BucketAggregate[string] | TermsAggregate[string];
     };
-    aggregations?: BucketAggregate | TermsAggregate;
   };
 }
 
diff --git a/other/opensearch-monitors/src/monitor/monitor-builder.ts b/other/opensearch-monitors/src/monitor/monitor-builder.ts
index dc849be..8409d1c 100644
--- a/other/opensearch-monitors/src/monitor/monitor-builder.ts
+++ b/other/opensearch-monitors/src/monitor/monitor-builder.ts
@@ -110,6 +110,9 @@ export function matchRegExpPhrase(
   return { regexp: { [field]: { value } } };
 }
 
+/** OpenSearch returns only ten buckets unless told otherwise */
+const MAX_BUCKETS = 1000;
+
 export function aggregateTerms(
   field: OSLogField,
   {
@@ -122,23 +125,24 @@ export function aggregateTerms(
     innerAggregate?: TermsAggregate;
   },
 ): TermsAggregate {
-  name = name ?? field.replace(".", "_");
+  name = name ?? field.replaceAll(".", "_");
   return {
     [name]: {
       terms: {
         field: field,
+        size: MAX_BUCKETS,
       },
-      ...(innerAggregate && {
-        aggregations: innerAggregate,
-      }),
-      ...(bucketFilter && {
+      ...((innerAggregate || bucketFilter) && {
         aggregations: {
-          [bucketFilter.name]: {
-            bucket_selector: {
-              buckets_path: bucketFilter.bucketPaths,
-              script: bucketFilter.script,
+          ...innerAggregate,
+          ...(bucketFilter && {
+            [bucketFilter.name]: {
+              bucket_selector: {
+                buckets_path: bucketFilter.bucketPaths,
+                script: bucketFilter.script,
+              },
             },
-          },
+          }),
         },
       }),
     },
-- 
2.43.0


From 4c4f1d18b4921406395a5da85df7ab0f6bae2202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:02 +0000
Subject: [PATCH 88/90] fix: a sum monitor sums the field it was told

The field named the aggregation only; bytes was summed whatever it was.
---
 other/opensearch-monitors/src/monitor/monitor-builder.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/other/opensearch-monitors/src/monitor/monitor-builder.ts b/other/opensearch-monitors/src/monitor/monitor-builder.ts
index 8409d1c..a9e0e6a 100644
--- a/other/opensearch-monitors/src/monitor/monitor-builder.ts
+++ b/other/opensearch-monitors/src/monitor/monitor-builder.ts
@@ -377,7 +377,7 @@ export class OsMonitorBuilder {
     this.aggs[`sum_${field}`] = {
       scripted_metric: {
         init_script: "state.responses = ['total': 0L]",
-        map_script: "state.responses.total+= doc['bytes'].value",
+        map_script: `state.responses.total+= doc['${field}'].value`,
         combine_script: "state.responses",
         reduce_script:
           "def sum = ['total': 0L]; for (responses in states) { sum.total += responses['total']; } return (sum.total / (1000*1000));",
@@ -388,7 +388,7 @@ export class OsMonitorBuilder {
     this.aggs[`sum_${field}_gb`] = {
       scripted_metric: {
         init_script: "state.responses = ['total': 0L]",
-        map_script: "state.responses.total+= doc['bytes'].value",
+        map_script: `state.responses.total+= doc['${field}'].value`,
         combine_script: "state.responses",
         reduce_script:
           "def sum = ['total': 0L]; for (responses in states) { sum.total += responses['total']; } return (sum.total / (1000*1000*1000));",
-- 
2.43.0


From 9b9d60c880622555f6b7a6829222a9a3485f7722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:22 +0000
Subject: [PATCH 89/90] fix: parameters of schedules are encoded when they are
 passed on

---
 .../src/lambda/get-schedules/lambda-get-schedules.ts         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts b/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts
index bccc7fd..a1d9364 100644
--- a/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts
+++ b/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts
@@ -70,7 +70,8 @@ function handleQueryParam(
   queryParams: Record<string, string | undefined>,
   params: string[],
 ): void {
-  if (queryParams[param] !== undefined) {
-    params.push(`${param}=${queryParams[param]}`);
+  const value = queryParams[param];
+  if (value !== undefined) {
+    params.push(`${param}=${encodeURIComponent(value)}`);
   }
 }
-- 
2.43.0


From 9bf84aa6ed715856edf573f9e6fe0ed257660627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:22 +0000
Subject: [PATCH 90/90] fix: an update of LAM stations that fails tells why

---
 road/lam-history/src/service/update.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/road/lam-history/src/service/update.ts b/road/lam-history/src/service/update.ts
index f11b1e5..ade2c05 100644
--- a/road/lam-history/src/service/update.ts
+++ b/road/lam-history/src/service/update.ts
@@ -77,7 +77,9 @@ async function getFromServer(url: string, apikey: string): Promise<string> {
           await result.json(),
         )}`,
       });
-      return Promise.reject();
+      return Promise.reject(
+        new Error(`url=${url} failed with return code ${result.status}`),
+      );
     }
     return await result.text();
   } catch (error) {
@@ -106,7 +108,7 @@ async function getFromServer(url: string, apikey: string): Promise<string> {
         error,
       });
     }
-    return Promise.reject();
+    throw error;
   } finally {
     logger.info({
       method: `${SERVICE}.getFromServer`,
-- 
2.43.0


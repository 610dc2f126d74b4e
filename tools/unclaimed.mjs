/** per property: what it deliberately does not say, because the code's intent there cannot be settled or the platform decides it */
export const UNCLAIMED = {
  P14: ["stack check on `{id}`-only path parts and on unnamed L2 functions"],
  P17: ["the exported proxy reader name, which is the writer endpoint (documented so in the code)"],
  P18: ["unhandled sibling rejections in UrlChecker callbacks: a callback that rejects fails its step; a second one rejecting in the same step may surface as unhandled"],
  P20: ["gzip check of only the first accept-encoding entry and its case", "lam-redirect's `api` parameter, which is not validated", "per5minCount, which ignores by-path limits"],
  P22: ["which description wins beside vs inside a nullable alternative", "the documentation version lookup over 500 entries, which is not paginated"],
  P23: ["order of equal timestamps", "the autori source", "channel changes that do not change the mapped tasks", "recursion depth of very long routes"],
  P24: ["the dead letter key `timestamp-<millis>-<index>` of portactivity, which two concurrent invocations in the same millisecond may share", "an empty `jarjestelma`, which is stored as it is"],
  P25: ["ages and differences within a minute of the limits of one hour", "calculations earlier than Awake's by 59 minutes or more", "ties of the nearest port call", "mmsi 0 with port calls lacking an IMO number", "a non-numeric interval", "the shiplist's HTML, which renders ship names unescaped"],
  P26: ["data-dump (Python; its layer's zip is not in the repository)", "applications without functions", "code reached only through packages that are not installed"],
  P27: ["attribute order in situations (they are found by a pattern)", "the same device twice in one upload", "concurrent invocations of the handler", "unknown versions and types (marked PROCESSED)", "further situations in one RTTI message", "the case of the X-Request-ID header", "the DLQs without consumers", "failures of the cleaning, which are swallowed", "ages between 7 and 8 days"],
  P28: ["attribute order in uploaded situations", "device ids that need XML escaping", "the status of failed reads beyond 'not a success'", "upper-casing of exotic letters", "xmlns:xsi of the situation publication (real records carry their own)"],
  P29: ["percent-encoded paths and the folder called metadata (no images are stored there)", "XML special characters in the camera server's credentials", "how many cameras are asked at a time", "the failure of the whole update, which is logged and not raised"],
  P30: ["failures of sending, which are swallowed", "the schedules service, kept although the secret changes", "Pilotweb times without milliseconds (sent again at every run)", "messages in the queue that are handled after their pilotage was removed", "arrival port calls whose URN is not Digitraffic's", "the failure of the pilotage and observation functions as a whole, which is logged and not raised", "several timetables in a schedule"],
  P31: ["history rows of updates that change nothing", "the limit of GROUP_CONCAT", "the same train twice at the same time", "dead letters written under the same key within one millisecond", "the stop monitoring method of the API (P16)", "duplicates of stop monitoring whose queueing failed half way"],
  P32: ["activities without an end that began before the asked time", "vessel 0 and numbers that are no integers", "a locode of two locations", "what is published between two runs while a run is half way", "activities of sources that are no vessels", "times written without a zone"],
  P33: ["visits the source no longer gives (they stay)", "ETAs within a day or two of the limits of three months", "letters whose case changes in more than ASCII", "local times that occur twice or never"],
  P34: ["ages of locations within seconds of two minutes", "sites on the equator or the prime meridian (refused as incomplete)", "a retry whose first attempt reached the lights although it failed", "ships on the edge of an area"],
  P35: ["failures of the update functions, which are logged and not raised", "numbers of sites that are no integers of the database", "site 0", "the first minute of the ten days a new site begins with", "counts that the source adds later than others of the same site"],
  P36: ["names of several apps within one path", "an excluded path with required parameters", "an endpoint configured in addition that is published as well", "breaks that begin within seconds of the minute ahead", "changes of data or of text looked for in existing checks", "failures of Slack, which are swallowed"],
  P37: ["keys that are alike but for quotes", "endpoints whose words occur in the middle of other paths", "queries longer than 1000 characters", "what the duplicates table holds besides not being counted", "ties within the most frequent"],
  P38: ["raw script queries", "the local copy of the monitors kept for comparison", "a trigger made before its message was changed", "an empty list of monitors, which changes nothing"],
  P39: ["that one kind of plans or stations is updated when the other fails", "a secret that has no token", "what a report contains"],
};

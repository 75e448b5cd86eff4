#!/bin/sh
# A CGI program for the checks: says what it was given.
case "$QUERY_STRING" in
*m=junk*) echo junk; exit 0;;
*m=none*) exit 0;;
*m=plain*) printf '\r\nplain'; exit 0;;
*m=close*) exec <&-; sleep 0.02;;
esac
printf 'Content-Type: text/plain\r\nX-Prog: %s\r\n\r\n' "$0"
for v in REQUEST_METHOD REQUEST_URI SCRIPT_NAME PATH_INFO QUERY_STRING HTTP_COOKIE HTTP_USER_AGENT HTTP_ACCEPT HTTP_ACCEPT_ENCODING DOCUMENT_ROOT GATEWAY_INTERFACE CONTENT_LENGTH CONTENT_TYPE MY_A MY_B; do
	eval "if [ \"\${$v+x}\" ]; then printf '%s=%s\n' $v \"\$$v\"; fi"
done
printf 'PWD=%s\n\n' "$(pwd -P)"
case "$QUERY_STRING" in
*m=big*) head -c 100000 /dev/zero;;
esac
case "$QUERY_STRING" in
*m=read*) head -c "${CONTENT_LENGTH:-0}";;
esac
case "$QUERY_STRING" in
*m=fail*) exit 7;;
esac
exit 0
